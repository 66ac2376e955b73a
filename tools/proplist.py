prop('C01', 'Every non-blank, non-comment row is one term, in order',
     'When a document is loaded from rows, rows that are empty, whose first cell is blank, or whose first cell starts with # '
     '(after leading white space) contribute nothing. Every other root-level row becomes exactly one term, in row order, whose '
     'name is the first cell without surrounding white space and regardless of case, and whose value is the second cell without '
     'surrounding white space (no value if the cell is missing or empty). Repeated rows are all kept.',
     'for all lists of rows of text cells: any characters, padding, capitalisation, number of rows and row widths',
     'The tests load a few fixed files whose names and values are plain words; none varies white space, case, characters or '
     'row widths.',
     ['parser.py', 'terms.py', 'doc.py', 'rowgen.py'],
     [('row filter and term construction', 'metatab/parser.py TermParser.generate_terms'),
      ('name normalisation', 'metatab/terms.py Term.split_term_lower, Term.__init__'),
      ('registration', 'metatab/doc.py MetatabDoc.load_terms, add_term')], ('inputs',))

prop('C02', 'Child rows attach to the parent that the format prescribes',
     'A row named Parent.Child becomes a child of the most recent earlier first-column term with that record name, wherever it '
     'is in the document; a row named .Child becomes a child of the last earlier term whose name was not elided, and starts '
     'afresh (a root-level term) after a Section row; cells beyond the second become children of their row\'s own term when its '
     'name is not elided. A named parent that has not appeared raises ParserError, and blank or comment rows in between change '
     'nothing.',
     'for all sequences of rows with root-level, explicit and elided names, in any case and spacing, with sections between them',
     'Tests check one or two small hierarchies; the guarantee quantifies over all sequences of rows, where the most recent '
     'parent changes with every row.',
     ['parser.py', 'terms.py'],
     [('last_term_map, last_parent_term', 'metatab/parser.py TermParser.__iter__'), ('add_child', 'metatab/terms.py Term.add_child')],
     ('inputs', 'histories'))

prop('C03', 'The three notations for a property mean the same',
     'A property of a term gives the same document whether it is written in a column of the term\'s row, as a .Child row below '
     'it or as a Parent.Child row, and whether the document comes as table rows or as Lines text. The same terms, values, child '
     'order, searches and dict form result, and the property\'s value is the cell without surrounding white space.',
     'for all property values that are not blank, all mixes of notations, all capitalisations',
     'Tests compare no two notations of one document.',
     ['parser.py', 'terms.py', 'rowgen.py'],
     [('argument children', 'metatab/parser.py TermParser.generate_terms'), ('column names', 'metatab/parser.py TermParser.__iter__ _param_map'),
      ('Lines reader', 'metatab/rowgen.py TextRowGenerator.__iter__')], ('inputs',))

prop('C04', 'Sections partition the document; same-named sections are one',
     'Every root-level term belongs to exactly one section, that of the closest Section row before it, or Root; sections whose '
     'names differ only in case are one section, listed at its first appearance with the name and columns given there. A '
     'section\'s columns name the argument cells of its own rows and no others. Sections are found by name in any case, and an '
     'absent one raises KeyError.',
     'for all section names, columns and sequences of section and term rows, including re-opened sections and a return to Root',
     'Tests use fixed files with distinct section names; re-opened sections, odd names and returns to Root are not exercised.',
     ['parser.py', 'doc.py', 'terms.py'],
     [('section coalescing', 'metatab/doc.py MetatabDoc.add_section; metatab/parser.py TermParser.generate_terms'),
      ('column map', 'metatab/parser.py TermParser.__iter__'), ('lookup', 'metatab/doc.py get_section, __getitem__, __contains__')],
     ('inputs', 'histories'))

prop('C05', 'Writing a document as CSV and reading it again gives the same document',
     'Reading the CSV text of a document (as_csv) gives the same sections in the same order, with the same columns, and the same '
     'terms with the same values and children (children of one name in the same order); nothing is lost, merged or invented, '
     'whatever characters the values contain, for documents that were read as well as documents made or edited with the API. '
     'Numbers are written as their text, 0 too. Writing the re-read document gives the same text, and writing does not change the document.',
     'for all documents: values with any characters including line breaks, quotes and commas, nested and repeated children, any '
     'sections and columns',
     'The only round-trip test compares a fixed file; loss shows only for particular shapes (a repeated property, a nested child, '
     'a column that is empty) and characters.',
     ['doc.py', 'terms.py', 'parser.py'],
     [('rows of a document', 'metatab/doc.py MetatabDoc.rows, as_csv'), ('rows of sections and terms', 'metatab/terms.py SectionTerm.rows, _args, Term.rows')],
     ('inputs', 'histories'))

prop('C06', 'Writing a document as Lines and reading it again gives the same document',
     'Reading the Lines text of a document (as_lines) gives the same sections, columns, terms, values and children as the '
     'document had, for all values without line breaks, including values with colons, pipes, backslashes and hash signs. Numbers are written as their text, 0 too. Writing '
     'the re-read document gives the same text, and writing does not change the document. The Lines text of one section reads as that section.',
     'for all documents whose texts have no line breaks and whose names have no colon, backslash or = sign; nested and repeated '
     'children, any sections and columns',
     'Tests compare one fixed file; separators inside values, repeated children and empty columns are not among them.',
     ['doc.py', 'terms.py', 'rowgen.py'],
     [('lines of a document', 'metatab/doc.py MetatabDoc.lines, as_lines'), ('lines of a section', 'metatab/terms.py SectionTerm.lines'),
      ('Lines reader', 'metatab/rowgen.py TextRowGenerator')], ('inputs', 'histories'))

prop('C07', 'Lines text is read by the rules of the Lines format',
     'In Lines text every line is a row; a line whose first non-blank character is # is skipped; a line that starts with four or '
     'more = signs is a Section row; the name is the text before the first colon and the value the text after it, later colons '
     'belonging to the value; pipes in the value separate columns unless escaped with a backslash, which is removed. A text gives '
     'the same rows whether it comes as a string, an open file or a path, and can be iterated again.',
     'for all texts: every combination of colons, pipes, backslashes, hash signs, = signs, white space and line breaks',
     'Tests read two fixed texts; the rules interact character by character.',
     ['rowgen.py'], [('tokenizer', 'metatab/rowgen.py TextRowGenerator.__init__, __iter__')], ('inputs',))

prop('C08', 'find() returns exactly the terms that match, in document order',
     'find() returns every term with the asked name and no other, each once, in document order: names are compared without '
     'regard to case, an unqualified name means a root-level term, and * matches any parent or record name. A value, a section '
     'or list of sections (in any case) and property values given as keywords all restrict the result; a list of names finds what '
     'each finds; a term that others inherit from also finds those. find_first(), find_first_value(), get(), get_value(), the '
     'methods of sections, and find()/find_first() among the children of a term agree with it and give None or the default when '
     'nothing matches.',
     'for all documents and all combinations of query name, wild cards, value, sections and properties',
     'Tests run a dozen queries on fixed files; each restriction must be right in combination with every other.',
     ['doc.py', 'terms.py'], [('search', 'metatab/doc.py MetatabDoc.find, find_first, get, get_value, all_terms'),
                              ('name match', 'metatab/terms.py Term.term_is'), ('children', 'metatab/terms.py Term.find, find_first; SectionTerm.find, get_term')],
     ('inputs',))

prop('C09', 'Names of terms are parsed, normalised and matched the same everywhere',
     'The name of a term splits at the dot into parent and record name without surrounding white space; without a dot the parent '
     'is root, and with nothing before the dot the parent is elided. Normalised names are qualified and in lower case, and '
     'normalising twice is normalising once. term_is() matches a name or any of a list without regard to case, with * for either '
     'part, and nothing else. Children made with the API are qualified by their parent. The value of a term is its text '
     'without surrounding white space; no text is no value, and numbers, 0 among them, are kept as they are.',
     'for all names with at most one dot, all patterns, all values',
     'Tests use a handful of plain names.',
     ['terms.py'], [('split and normalise', 'metatab/terms.py Term.split_term, split_term_lower, normalize_term, term setter'), ('match', 'metatab/terms.py Term.term_is')],
     ('inputs',))

prop('C10', 'Properties of a term read back as they were set',
     'Setting a property (item, new_child, get_or_new_child, or attribute for a column of the section) makes or changes exactly one '
     'child with that value, and reading it by item, get, get_value, find_first, props or attribute, in any case, gives it back; '
     'setting it to None removes exactly the first child of that name; setting value changes the value of the term. A property '
     'that is not there raises KeyError or AttributeError, or gives the default, and in tells which are there. Numbers are values too, 0 among them. Other '
     'children and other terms are not changed.',
     'for all sequences of operations, property names and values',
     'Tests set a few properties once; the guarantee is about sequences, repeated names, capitalisation and padding.',
     ['terms.py'], [('items', 'metatab/terms.py Term.__getitem__, __setitem__, __contains__, get, get_value'),
                    ('children', 'metatab/terms.py Term.new_child, get_or_new_child, remove_child'), ('attributes', 'metatab/terms.py Term.__getattr__, __setattr__')],
     ('inputs', 'histories'))

prop('C11', 'Document, sections and terms stay consistent under every edit',
     'After any sequence of edits (new, moved, removed and re-added terms, new, cleaned and deleted sections, get_or_new_*, '
     'set_terms), every root-level term is in exactly one section, knows that section and the document, and is listed once by '
     'the document; exactly the edited terms appear, move or disappear, with their children (a new section replaces one of the same name, with its terms); section names are matched without '
     'regard to case; searches see the edits at once.',
     'for all histories of edits on documents that were read or made with the API',
     'Tests make one or two edits; stale lists show only after particular sequences.',
     ['doc.py', 'terms.py'], [('document', 'metatab/doc.py add_term, remove_term, add_section, new_section, get_or_new_section, __delitem__'),
                              ('section', 'metatab/terms.py SectionTerm.add_term, move_term, new_term, get_or_new_term, set_terms, remove_term, clean, __delitem__')],
     ('histories', 'inputs'), state=[('doc.terms / doc.sections / section.terms', 'root-level terms of the document, by section', 'metatab/doc.py, metatab/terms.py')])

prop('C12', 'Sorting sections and terms only reorders them, as asked',
     'sort_sections() puts the named sections first in the order given (names in any case, absent ones ignored) and leaves the '
     'others in their order after them; sort_by_term() puts a section\'s terms in alphabetical order, or those of a list of names '
     'first in its order and the rest alphabetically. Terms of one name keep their order. Nothing is lost, duplicated or '
     'changed, and other sections are not touched.',
     'for all section and term names, orders and numbers of terms',
     'No test sorts; stability and loss depend on the combination of names and order list.',
     ['doc.py', 'terms.py'], [('sections', 'metatab/doc.py sort_sections'), ('terms', 'metatab/terms.py SectionTerm.sort_by_term')], ('inputs',))

prop('C13', 'The dict form has every term, shaped by its property type',
     'as_dict() of a term without children is its value; of one with children, a dict with one entry per child name in order of '
     'appearance, and its value under its value name (or @value). Repeated children make a list; child property types decide '
     'otherwise: sequence always a list, scalar the last value, sconcat the values joined by a space, bconcat joined without one. '
     'A document\'s dict has the root-level terms of all of its sections; an empty document gives an empty dict. '
     'Converting changes nothing and gives the same result again.',
     'for all documents, types, names and values',
     'Tests compare the dict of fixed files, where most types and repetitions do not occur.',
     ['terms.py', 'doc.py'], [('conversion', 'metatab/terms.py Term._convert_to_dict, SectionTerm.as_dict, RootSectionTerm.as_dict'), ('document', 'metatab/doc.py MetatabDoc.as_dict')],
     ('inputs',))

prop('C14', 'Versions: components, arithmetic, and questions that change nothing',
     'update_version() makes the version of a document of Version.Major, Minor and Patch (a missing one is 1, an empty one 0) and Build, '
     'and leaves a version without components as it is. as_version() returns the name of the document with its version, or the '
     'patch, increased or decreased by the number after + or - (1 if none), replaced by a given one, or without version for '
     'None; it never changes the document, and version math on something that is no integer raises MetatabError. '
     'update_name(mod_version=...) sets that version for good.',
     'for all versions, numbers, components there or not, and sequences of questions',
     'The one test asks for four versions of a fixed file.',
     ['doc.py'], [('components', 'metatab/doc.py update_version, _has_semver'), ('arithmetic', 'metatab/doc.py _generate_identity_name, as_version')], ('inputs', 'histories'))

prop('C15', 'Document names are generated from their parts; identifiers are kept',
     'With a Dataset, update_name() sets Root.Name to the slugs of origin, dataset, time, space, grain, variant and version in this '
     'order, joined by dashes, leaving out missing ones, dashes inside a part becoming underscores. Without one, a name is '
     'kept and an empty one becomes the identifier. ensure_identifier() and cleanse() give a document an identifier if it has '
     'none and never replace one. All of them touch only names, identifiers and versions of the Root section, and doing them again '
     'changes nothing.',
     'for all subsets, orders and contents of the terms',
     'Tests update the name of one file.',
     ['doc.py', 'util.py'], [('name', 'metatab/doc.py update_name, _generate_identity_name'), ('identifier', 'metatab/doc.py ensure_identifier, cleanse')], ('inputs',))

prop('C16', 'Slugs contain only safe characters and are stable',
     'slugify() returns the ASCII form of a text (compatibility decomposition, other characters dropped) in lower case, without '
     'surrounding white space, with only letters, digits, underscores, dots and dashes, every run of white space and dashes '
     'being one dash. The slug of a slug is itself.',
     'for all texts',
     'No test calls it with other than plain words.',
     ['util.py'], [('slugify', 'metatab/util.py slugify')], ('inputs',))

prop('C17', 'Declarations give terms their types, and nothing else',
     'A declaration (a Declare row, the decl argument, or one the document has before more rows are loaded) applies to '
     'every term of the document: the declared value name and property type are used for the dict form, a synonym is read as the '
     'term it stands for, a term that inherits is found by searches for its super term, and the declared section columns and '
     'allowed terms are known to the document. Names match in any case. The terms, values and sections of the document itself '
     'are those of its rows alone; none of the declaration\'s appear in its sections. Declarations that do not exist raise '
     'IncludeError and malformed ones DeclarationError.',
     'for all declared names, value names, types, synonyms and super terms, all ways of declaring, and all rows using them',
     'The tests load documents that declare the shipped metatab-latest only.',
     ['parser.py', 'doc.py', 'terms.py'],
     [('declare handling', 'metatab/parser.py TermParser.generate_terms, TermParser.__iter__, declare_dict, substitute_synonym'),
      ('declarations of a document', 'metatab/doc.py MetatabDoc.load_declarations, decl_terms, super_terms, load_terms')], ('inputs', 'histories'))

prop('C18', 'Included files take the place of the Include row',
     'A document with Include rows has the same terms, sections, values and children as if the rows of each included file stood in '
     'the place of its Include row, at any depth of inclusion and however often a file is included; paths are relative to the '
     'file with the Include row. Afterwards the section of the Include row continues. A file that does not exist, or that '
     'includes itself directly or through others, raises IncludeError, naming the file, and the error can be reported as a dict with the file and row of the Include row.',
     'for all contents of the files and all places of the Include rows',
     'The tests include one fixed file.',
     ['parser.py', 'rowgen.py'], [('include handling', 'metatab/parser.py TermParser.generate_terms, find_include_doc, errors_as_dict')], ('inputs', 'fault_sequences'))

prop('C19', 'Registered term classes are used for exactly the terms of their name',
     'After a class (or its dotted name) is registered for a term name, every term of that name, in any case, that is read from '
     'rows or made with the API has that class, and so have terms derived from it unless they have a class of their own; all '
     'others have the default class. Registering again replaces the class, and unregistering removes it. Classes do not change '
     'what the document contains.',
     'for all names, classes and sequences of registering and unregistering',
     'The one test registers two classes for fixed names.',
     ['parser.py', 'doc.py', 'terms.py'], [('registry', 'metatab/parser.py TermParser.register_term_class, unregister_term_class, get_term_class'),
                                           ('use', 'metatab/doc.py MetatabDoc.get_term_class; metatab/terms.py SectionTerm.new_term, Term.new_child')], ('inputs', 'histories'))

prop('C20', 'A document loaded in pieces is the document of all rows',
     'Loading more rows into a document (load_rows, or load_terms with a parser of its own, at any time, also after edits) adds '
     'the terms of the new rows and changes nothing else: the terms that were there are kept as they are, sections that exist '
     'are continued and keep their columns, each piece starts in Root, and rows that name a '
     'parent attach to the last such term of the piece. An error in a later piece leaves what was loaded before it intact, and '
     'documents that are loaded at the same time do not influence each other. A parser gives the same terms each time it is run over the same rows.',
     'for all rows, all ways of cutting them into pieces, and all edits in between',
     'No test loads into a document twice.',
     ['doc.py', 'parser.py'], [('loading', 'metatab/doc.py MetatabDoc.load_terms, load_rows'), ('state of the parser', 'metatab/parser.py TermParser.__iter__, generate_terms')],
     ('inputs', 'histories'))

prop('C21', 'Writing a file stores the document, all of it or nothing',
     'write(), write_csv() and write_lines() put the text of the document, CSV or Lines depending on the extension, in the file of '
     'that name, or without a path the file the document was read from or metadata.csv; reading the file gives the document '
     'again, with its identifier and name. No other file is touched. Other extensions, URLs, and documents that cannot be '
     'encoded raise an error and leave every file as it was.',
     'for all documents, values, paths, and edits before writing',
     'The tests write a fixed document and look whether the file exists.',
     ['doc.py', 'rowgen.py'], [('writing', 'metatab/doc.py MetatabDoc.write, write_csv, write_lines, _write'), ('reading', 'metatab/doc.py MetatabDoc.__init__; metatab/rowgen.py')],
     ('inputs', 'histories', 'fault_sequences'))

prop('C22', 'The metatab program prints or writes the document it is asked for',
     'metatab prints the document in the file as CSV, Lines or JSON, or with -W writes exactly the file of the same name with the '
     'extension of the format; --find-first prints the value of the first term of that name in any case; --create makes a file '
     'from the template and never replaces one; --show-declaration with -j prints the declared terms and sections of the file; -t prints one line for each section and term, with its name and value, in the order of the rows, and -p the dict form. '
     'A directory stands for the metadata.csv in it, as does no file for that in the current directory. A file or term that does not exist is an error with a non-zero exit code, '
     'prints nothing on standard output and changes no file.',
     'for all documents, formats, options and values',
     'No test runs the program.',
     ['cli.py'], [('program', 'metatab/cli.py metatab'), ('helpers', 'metatab/cli.py new_metatab_file, get_table, make_metatab_file')],
     ('inputs', 'fault_sequences'))

prop('C23', 'Conversion to a data package maps every table, column and resource',
     'convert_to_datapackage() returns the properties of the Root section, with the identifier as the name if there is none, and in '
     'order a resource for each Datafile whose name, or else whose Table property, is a table of the Schema section: its URL, name, and '
     'a field for every column in order, with name, title, description and the data package type of its DataType. Without a name and '
     'identifier, without a schema, or with a table that has no columns it raises ConversionError. The document does not change.',
     'for all names, types, descriptions, notations of the properties, tables and resources',
     'No test covers the conversion.',
     ['datapackage.py'], [('conversion', 'metatab/datapackage.py convert_to_datapackage')], ('inputs',))

prop('C24', 'Section columns change, and the schema is cleaned, without losing properties',
     'add_arg() adds a column at the end or the beginning of a section unless it has one of that name in any case, and remove_arg() removes it; no '
     'term and no other section or declaration changes, and the written document still has everything. '
     'clean_unused_schema_terms() leaves the Schema section with exactly the columns that some table column has a value for, the ones it '
     'had before in their order and then the new ones in the order of the document, and removes empty properties (no value, no children) of table columns, '
     'and nothing else; cleaning again changes nothing, and without a schema it does nothing.',
     'for all names, values, orders of changes, and notations of the properties',
     'No test calls any of them.',
     ['terms.py', 'doc.py'], [('columns', 'metatab/terms.py SectionTerm.add_arg, remove_arg'), ('cleaning', 'metatab/doc.py MetatabDoc.clean_unused_schema_terms')], ('inputs', 'histories'))

prop('C25', 'Property views and Header rows agree with the rows of a term',
     'props has the value of every child of a term (the last one of a name), arg_props the cells of its row by the names of the columns '
     'and its value by the value name, and all_props both, children first; descendents are all children with theirs. A Header '
     'row names the value (@value if blank) and the columns of the rows after it, up to the next Header or Section row; it is no '
     'term itself. Looking at properties never changes the document.',
     'for all values, columns, value names and mixes of notations',
     'One test prints the properties of a fixed document.',
     ['terms.py', 'parser.py'], [('views', 'metatab/terms.py Term.props, arg_props, all_props, property_names, descendents'), ('headers', 'metatab/parser.py TermParser.__iter__')], ('inputs',))

prop('C26', 'Terms, errors and documents know where they come from',
     'A term read from rows has the name of its file (as a slug; of the class of the row generator if there is no file), the number of its row, counting every row of that '
     'file from 1, and its column: 1 if it is named in the first column, and counted from 2 for the argument cells; file_ref() gives them as text. Sections have the place of '
     'their first row, terms of an included file that of the included file, and terms made with the API none. The error for a row whose parent is missing '
     'has the number of the row. path, doc_dir and mtime of a document read from a file are those of the file, whatever way it was named; other documents have no path and directory.',
     'for all sequences of rows, blank and comment rows, places of includes, and names of files',
     'The tests look at no row numbers, and read files of simple names.',
     ['parser.py', 'terms.py', 'doc.py'], [('places', 'metatab/parser.py TermParser.generate_terms; metatab/terms.py Term.__init__, file_ref, SectionTerm.__init__'),
                                           ('document', 'metatab/doc.py MetatabDoc.__init__, path, doc_dir, mtime')], ('inputs',))

prop('C27', 'YAML files and YAML output hold the same document',
     'A document read from a Metatab YAML file has the terms of the mapping in it, in order, nested as there and in the sections that the declaration '
     'puts them in; the program prints with -y a YAML text that reads back as the dict form of the document.',
     'for all documents and values',
     'No test reads or writes YAML.',
     ['rowgen.py', 'cli.py'], [('reading', 'metatab/rowgen.py YamlMetatabSource'), ('output', 'metatab/cli.py metatab')], ('inputs',))

prop('C28', 'A document is the same from the web, an archive or a spreadsheet',
     'A document opened by a web URL, in a ZIP file, in an Excel workbook or a Google spreadsheet has the same terms, values and sections as the same rows in a local CSV file, and '
     'relative includes in it are found beside it.',
     'for all documents, containers and URLs',
     'The tests that fetch documents need the network and do not run here.',
     ['appurl.py', 'resolver.py', 'doc.py'], [('URLs', 'metatab/appurl.py MetatabUrl'), ('row generators', 'metatab/resolver.py WebResolver')], ('inputs', 'fault_sequences'))

prop('C29', 'Flattening a structure lists every value once with its path',
     'flatten(d) of a structure of dicts, lists and values, like the dict form of a document, gives each value that is no dict or list exactly once, in order, with '
     'its path: the keys and the positions in lists, joined with the separator. Empty dicts and lists give nothing, and the structure is not changed.',
     'for all nested structures, keys, values and separators',
     'It is only used to compare dicts in tests that do not run here.',
     ['util.py'], [('flatten', 'metatab/util.py flatten')], ('inputs',))

prop('C30', 'A metatab URL stands for the document in the file or package it names',
     'A URL metatab+file:PATH of a CSV or Lines file stands for that file, and of a directory for the metadata.csv in it: its .doc, MetatabDoc(url) and its rows are those of the file, with relative '
     'includes found beside it, and so are its formats, its file name and the paths joined to it. A document opened this way knows its file and is written back to it. A URL of a ZIP file or an Excel '
     'file stands for the metadata.csv or the sheet meta in it. A file that does not exist is reported as not there and cannot be opened. Using a URL prints nothing.',
     'for all documents, directories and file names',
     'One test parses one URL and does not look at the result.',
     ['appurl.py', 'doc.py'], [('URL', 'metatab/appurl.py MetatabUrl'), ('opening', 'metatab/doc.py MetatabDoc.__init__'), ('writing', 'metatab/doc.py MetatabDoc._write_path')], ('inputs',))

NA = [
    dict(property='C27', reason='Decided by the PyYAML loader and dumper (third party; some 5000 lines of scanner, resolver and emitter, in part C), which is outside of what '
                                'sx can encode; with a stand-in for it nothing but a recursion over a dict remains. The reader is unfinished: it fails with PyYAML 6 and for '
                                'every list of terms without values (see DESIGN.md).'),
    dict(property='C28', reason='Decided by rowgenerators, requests, zipfile, openpyxl/xlrd and remote servers, none of which is part of this repository or encodable here; '
                                'the code in this repository only passes URLs on. There is no network. Local files are covered by C18, C21, C22 and C26.'),
]
