C = "from metatab import MetatabDoc\nfrom metatab.rowgen import MetatabRowGenerator, TextRowGenerator\ndef D(rows): return MetatabDoc(MetatabRowGenerator(rows))\n"

seed('s01-hash-name', 'C01', 'a term whose name contains, but does not start with, a # sign',
     'such rows are dropped as comments',
     [('parser.py', "row[0].strip().startswith('#'):", "'#' in row[0].strip().split('.')[-1]:")],
     C + "d = D([['Title', 't'], ['Issue#', '3']])\nassert [t.value for t in d.terms] == ['t', '3'], d.terms\n")

seed('s02-arg-after-elided', 'C02', 'a child row below an elided child row',
     'elided children become possible parents: the next elided child attaches to them',
     [('parser.py', "                        last_term_map[last_parent_term].add_child(t)\n\n                    elif t.is_arg_child:",
       "                        last_term_map[last_parent_term].add_child(t)\n                        last_term_map[t.record_term] = t\n\n                    elif t.is_arg_child:")],
     C + "d = D([['Note', 'n'], ['Table', 't'], ['.Note', 'x'], ['Note.Lang', 'en']])\n"
         "assert [c.value for c in d.terms[0].children] == ['en']\n")

seed('s03-zero-code', 'C03', 'a property with leading zeros in a column of the row',
     'the leading zeros are lost, although they are kept in a child row',
     [('parser.py', "yield term_class(term_name, str(value), [],", "yield term_class(term_name, str(int(value)) if str(value).isdigit() else str(value), [],")],
     C + "a = D([['Section', 'S', 'Size'], ['T', 'x', '007']])\nb = D([['Section', 'S', 'Size'], ['T', 'x'], ['.Size', '007']])\n"
         "assert a.as_dict() == b.as_dict()\n")

seed('s04-blank-column', 'C04', 'a section with a blank column that is not the last one',
     'the columns after the blank one name the wrong cells',
     [('parser.py', "return [p.lower() if p else i for i, p in enumerate(t.args)]", "return [p.lower() for p in t.args if p]")],
     C + "d = D([['Section', 'S', 'A', '', 'C'], ['T', '1', 'x', '', 'z']])\nassert d.terms[0].props == {'a': 'x', 'c': 'z'}, d.terms[0].props\n")

seed('s05-args-falsy', 'C05', 'a term with a column that is empty followed by a column that is not, when a row has more than one such term',
     'written rows drop empty cells, so later cells move to other columns',
     [('terms.py', "            args.append(lower_d.get(n.lower(), ''))\n", "            if lower_d.get(n.lower()) or n == tvm or len(args) < 2:\n                args.append(lower_d.get(n.lower(), ''))\n")],
     C + "import csv, io\nd = D([['Section', 'S', 'A', 'B', 'C'], ['T', 'v', 'a', '', 'c']])\n"
         "e = D(list(csv.reader(io.StringIO(d.as_csv()))))\nassert e.as_dict() == d.as_dict(), e.as_dict()\n")

seed('s06-lines-prop', 'C06', 'a property whose value is a single dash in a column of a section',
     'the property is not written to Lines text',
     [('terms.py', "children = list(zip(self.property_names, value[1:]))", "children = [e for e in zip(self.property_names, value[1:]) if e[1] != '-']")],
     C + "d = D([['Section', 'S', 'Size'], ['T', 'v', '-']])\ne = MetatabDoc(TextRowGenerator(d.as_lines()))\nassert e.as_dict() == d.as_dict(), e.as_dict()\n")

seed('s07-equals', 'C07', 'a section line with more than eight = signs',
     'the remaining = signs become part of the section name',
     [('rowgen.py', "row = re.sub(r'^=*','Section:', row)", "row = re.sub(r'^={4,8}','Section:', row)")],
     C + "d = MetatabDoc(TextRowGenerator('Title: t\\n========== Schema\\nTable: x\\n'))\nassert 'Schema' in d, list(d.sections)\n")

seed('s08-find-value', 'C08', 'a search for a value that only a child in a section other than Root has',
     'all_terms stops at the first section without terms',
     [('doc.py', "            # Yield all of the rows for terms in the section\n            for rterm in s:\n                yield rterm\n",
       "            if s.name != 'Root' and not s.terms:\n                return\n\n            # Yield all of the rows for terms in the section\n            for rterm in s:\n                yield rterm\n")],
     C + "d = D([['Section', 'Empty', 'A'], ['Section', 'S', 'Kid'], ['T', 'v', 'k']])\nassert [t.value for t in d.find('T.Kid')] == ['k']\n")

seed('s09-term-is', 'C09', 'a wild card for the parent together with a capitalised record name that starts with root',
     'such patterns never match',
     [('terms.py', "            elif v_p == '*' and v_r == self.record_term_lc:", "            elif v_p == '*' and v_r.replace('root', '') == self.record_term_lc:")],
     C + "from metatab.terms import Term\nassert Term('Plant.Rootstock', 'x').term_is('*.rootstock')\nassert Term('Root.Title', 'x').term_is('*.title')\n")

seed('s10-remove-dup', 'C10', 'two children of one name, the first of which is removed by setting the property to None, when they have the same value',
     'all children of that name and value are removed',
     [('terms.py', "            child = self.find_first(item)\n            if child:\n                self.remove_child(child)",
       "            child = self.find_first(item)\n            if child:\n                for c in list(self.find(item, child.value)):\n                    self.remove_child(c)")],
     C + "d = D([['T', 'x'], ['.Note', 'a'], ['.Note', 'a'], ['.Note', 'b']])\nt = d.terms[0]\nt['note'] = None\nassert [c.value for c in t.children] == ['a', 'b']\n")

seed('s11-clean', 'C11', 'a section with several terms is cleaned',
     'terms are skipped because the list changes during the iteration',
     [('terms.py', "        terms = list(self)\n\n        for t in terms:\n            self.doc.remove_term(t)", "        for t in self:\n            self.doc.remove_term(t)")],
     C + "d = D([['Section', 'S'], ['A', '1'], ['B', '2'], ['C', '3']])\nd['S'].clean()\nassert not d.terms and not d['S'].terms, d.terms\n")

seed('s12-sort-rest', 'C12', 'a list of names for sort_by_term() that has the same name twice, or names with the same term',
     'the terms are duplicated',
     [('terms.py', "                        all_terms.remove(t)\n                        sorted_terms.append(t)", "                        sorted_terms.append(t)\n\n            all_terms = [t for t in all_terms if t not in sorted_terms]")],
     C + "d = D([['Section', 'S'], ['B', '1'], ['A', '2']])\nd['S'].sort_by_term(['root.b', 'b'])\nassert [t.value for t in d['S'].terms] == ['1', '2']\n")

seed('s13-seq-dict', 'C13', 'three children of one name, of which the first is a nested one',
     'the third is nested into the list wrongly',
     [('terms.py', "                        d[c.record_term_lc] = [d[c.record_term]] + [cls._convert_to_dict(c, replace_value_names)]",
       "                        d[c.record_term_lc] = (d[c.record_term], cls._convert_to_dict(c, replace_value_names))")],
     C + "d = D([['T', '1'], ['T', '2'], ['T', '3'], ['T', '4']])\nassert d.as_dict() == {'t': ['1', '2', '3', '4']}, d.as_dict()\n")

seed('s14-version-build', 'C14', 'a semantic version with a Build component',
     'the build is written into the patch position of the name',
     [('doc.py', "            values = values + (build.value,)\n", "            values = values[:2] + (build.value, patch.value)\n")],
     C + "d = D([['Dataset', 'd'], ['Name', 'n'], ['Version', ''], ['Version.Major', '1'], ['Version.Minor', '2'], ['Version.Patch', '3'], ['Version.Build', '9']])\n"
         "assert d.update_version() == '1.2.3.9', d.update_version()\n")

seed('s15-name-blank', 'C15', 'a part of the name that contains a dash at a place other than its end',
     'the dash is kept, so that the name has too many parts',
     [('doc.py', "parts = [slugify(str(e).replace('-', '_')) for e in (", "parts = [slugify(str(e).replace('-', '_', 1)) for e in (")],
     C + "d = D([['Dataset', 'a-b-c'], ['Name', 'n'], ['Identifier', 'i']])\nd.update_name()\nassert d.find_first_value('Name') == 'a_b_c'\n")

seed('s16-slug-us', 'C16', 'a text with white space other than blanks',
     'tabs and line breaks are kept in slugs',
     [('util.py', "value = re.sub(r'[-\\s]+', '-', value)", "value = re.sub(r'[- ]+', '-', value)")],
     "from metatab.util import slugify\nassert slugify('a\\tb') == 'a-b'\n")

seed('t01-strip', 'C01', 'a value with a tab or another white space character at its end',
     'only blanks are stripped from values',
     [('terms.py', "                return v.strip()\n", "                return v.strip(' \\n\\r')\n")],
     C + "d = D([['Title', '\\tx\\t']])\nassert d.terms[0].value == 'x'\n")

seed('t02-root-parent', 'C02', 'an elided row after a return to the Root section',
     'the row becomes a child of the last term of the section before',
     [('parser.py', "                elif t.term_is('root.root'):\n                    self._param_map = munge_param_map(t)\n                    last_parent_term = self.root.record_term\n",
       "                elif t.term_is('root.root'):\n                    self._param_map = munge_param_map(t)\n")],
     C + "d = D([['Section', 'S'], ['T', '1'], ['Section', 'Root'], ['.K', '2']])\nassert not d['S'].terms[0].children\n")

seed('t03-pipe', 'C03', 'a property in a Lines column whose value is quoted',
     'quotes around the values of columns are removed',
     [('rowgen.py', "row = [row[0]] + [ e.replace", "row = [row[0]] + [ e.strip('\"').replace")],
     C + "d = MetatabDoc(TextRowGenerator('Section: S|A\\nT: x|\"q\"\\n'))\nassert d.terms[0]['A'].value == '\"q\"'\n")

seed('t04-get-or-new', 'C04', 'get_or_new_section() with a name in another case',
     'the section is replaced by an empty one',
     [('doc.py', "        if name.lower() not in self.sections:\n            self.sections[name.lower()] = SectionTerm(", "        if name.title() not in [s.name.title() for s in self if s.name == s.name.title()]:\n            self.sections[name.lower()] = SectionTerm(")],
     C + "d = D([['Section', 'SCHEMA', 'A'], ['T', '1', 'x']])\nassert d.get_or_new_section('schema') is d['Schema'] and d['Schema'].terms\n")

seed('t05-child-order', 'C05', 'two children of one name, of which the first has children and the second has none, in a section with a column for them',
     'the second is written into the column, so that it is the first one after reading',
     [('terms.py', "            else:\n                other_children.append(c)\n\n            used_names.add(c.record_term_lc)", "                used_names.add(c.record_term_lc)\n            else:\n                other_children.append(c)")],
     C + "import csv, io\nd = D([['Section', 'S', 'K'], ['T', '1'], ['.K', 'a'], ['T.K', 'b'], ['K.X', 'c'], ['T.K', 'd']])\n"
         "d.terms[0].children = d.terms[0].children[1:]\n"
         "e = D(list(csv.reader(io.StringIO(d.as_csv()))))\nassert [c.value for c in e.terms[0].children] == ['b', 'd'], e.as_dict()\n")

seed('t06-escape', 'C06', 'a value with a pipe character at its end',
     'the pipe is not escaped, so that the value is cut',
     [('terms.py', "return v.replace('|', '\\\\|') if isinstance(v, str) else v", "return v[:-1].replace('|', '\\\\|') + v[-1:] if isinstance(v, str) else v")],
     C + "d = D([['T', 'a|b|']])\ne = MetatabDoc(TextRowGenerator(d.as_lines()))\nassert e.terms[0].value == 'a|b|', e.terms\n")

seed('t07-noblank', 'C07', 'a section line without a blank after the = signs',
     'the section is not recognised',
     [('rowgen.py', "if row.startswith('===='):", "if row.startswith('==== '):")],
     C + "d = MetatabDoc(TextRowGenerator('A: 1\\n====Schema\\nB: 2\\n'))\nassert 'Schema' in d\n")

seed('t08-kwargs', 'C08', 'a search by two properties of which a term has only one',
     'terms with one of the properties are found too',
     [('doc.py', "if all(t.get_value(k) == v for k, v in kwargs.items()):", "if any(t.get_value(k) == v for k, v in kwargs.items()):")],
     C + "d = D([['Section', 'S', 'A', 'B'], ['T', '1', 'x', 'y'], ['T', '2', 'x', 'z']])\nassert len(d.find('T', a='x', b='z')) == 1\n")

seed('t09-wild', 'C09', 'a pattern with an unqualified wild card',
     'it matches terms at every level',
     [('terms.py', "                v = 'root.' + v\n", "                v = ('*.' if v == '*' else 'root.') + v\n")],
     "from metatab.terms import Term\nassert Term('Root.A', '1').term_is('*')\nassert not Term('B.A', '1').term_is('*')\n")

seed('t10-empty-value', 'C10', 'a property is set to the empty text',
     'the old value stays',
     [('terms.py', "            if value is not False:\n                c.value = value\n\n            for k, v in kwargs.items():\n                c.get", "            if value:\n                c.value = value\n\n            for k, v in kwargs.items():\n                c.get")],
     C + "d = D([['T', '1'], ['.K', 'x']])\ntry:\n    d.terms[0].get_or_new_child('K', '')\nexcept AssertionError:\n    pass\nassert not d.terms[0]['K'].value\n")

seed('t11-grandchild', 'C11', 'a term with grandchildren is moved to another section',
     'the grandchildren stay with the old section',
     [('terms.py', "            t.doc = self.doc\n            t.set_ownership()", "            t.doc = self.doc\n            if not t.section:\n                t.set_ownership()")],
     C + "d = D([['Section', 'A'], ['T', '1'], ['T.K', '2'], ['K.X', '3'], ['Section', 'B'], ['U', '4']])\nd['B'].move_term(d['A'].terms[0])\n"
         "assert [t.value for t in d.find('K.X', section='B')] == ['3']\n")

seed('t12-stable', 'C12', 'terms of one name whose values are not in order',
     'sorting changes the order of terms of one name',
     [('terms.py', "sorted_terms.extend(sorted(all_terms, key=lambda e: e.join_lc))", "sorted_terms.extend(sorted(all_terms, key=lambda e: (e.join_lc, str(e.value))))")],
     C + "d = D([['Section', 'S'], ['B', '2'], ['B', '1'], ['A', '3']])\nd['S'].sort_by_term(['root.c'])\nassert [t.value for t in d['S'].terms] == ['3', '2', '1']\n")

seed('t13-names', 'C13', 'the dict form without value names of a term with a sequence property that has properties of its own',
     'value names are replaced in sequences',
     [('terms.py', "d[c.record_term_lc] = [cls._convert_to_dict(c, replace_value_names)]\n\n                elif c.child_property_type == 'sconcat'", "d[c.record_term_lc] = [cls._convert_to_dict(c)]\n\n                elif c.child_property_type == 'sconcat'")],
     C + "d = D([['T', '1'], ['T.K', '2'], ['K.X', '3']])\nk = d.terms[0].children[0]\nk.child_property_type = 'sequence'\nk.term_value_name = 'v'\n"
         "assert d.as_dict(False)['t'] == {'k': [{'x': '3', '@value': '2'}], '@value': '1'}, d.as_dict(False)\n")

seed('t14-below', 'C14', 'the name of an earlier version than 0',
     'the version is limited to 0',
     [('doc.py', "mv = str(int(mv) - int(mod_version[1:] if mod_version[1:] else 1))", "mv = str(max(0, int(mv) - int(mod_version[1:] if mod_version[1:] else 1)))")],
     C + "d = D([['Dataset', 'd'], ['Name', 'n'], ['Version', '1']])\nassert d.as_version('-3') == 'd-_2', d.as_version('-3')\n")

seed('w15-grain', 'C15', 'a Grain term in a section other than Root, and none in Root',
     'it becomes a part of the name of the document',
     [('doc.py', "grain = self.find_first_value('Root.Grain', section='Root')", "grain = self.find_first_value('Root.Grain')")],
     C + "d = D([['Dataset', 'd'], ['Name', 'n'], ['Identifier', 'i'], ['Section', 'S'], ['Grain', 'g']])\nd.update_name()\nassert d.find_first_value('Name') == 'd', d.find_first_value('Name')\n")

seed('t16-nfd', 'C16', 'a text with compatibility characters, such as a ligature',
     'they are dropped',
     [('util.py', "unicodedata.normalize('NFKD', value)", "unicodedata.normalize('NFD', value)")],
     "from metatab.util import slugify\nassert slugify('\\ufb01x') == 'fix'\n")

DECL = "import tempfile, os\nw = tempfile.mkdtemp()\nos.chdir(w)\ndef put(n, t):\n    open(os.path.join(w, n), 'w').write(t)\n    return os.path.join(w, n)\n"

seed('u17-derived', 'C17', 'two terms inherit from one term, and are declared with a term that inherits from another one in between',
     'searches for the super term find only some of the derived terms',
     [('doc.py', "for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}", "for k, g in groupby(list(self.super_terms.items()), kf)}")],
     C + DECL + "p = put('d.csv', 'Section,DeclaredSections\\nDeclareSection,R\\nSection,DeclaredTerms,Section,InheritsFrom\\nDeclareTerm,Root.A,R\\nDeclareTerm,Root.B,R\\n'\n"
     "        'DeclareTerm,Root.X,R,Root.A\\nDeclareTerm,Root.Y,R,Root.B\\nDeclareTerm,Root.Z,R,Root.A\\n')\n"
     "d = D([['Declare', p], ['X', '1'], ['Y', '2'], ['Z', '3']])\nassert [t.value for t in d.find('Root.A')] == ['1', '3'], d.find('Root.A')\n")

seed('u17-synonym', 'C17', 'a synonym that is declared with capital letters for a child term',
     'the synonym is not recognised',
     [('parser.py', "                syns[k.lower()] = v['synonym']\n", "                syns[k] = v['synonym']\n"),
      ('parser.py', "        self._declared_terms[term_name] = td\n", "        self._declared_terms[term_name if not td.get('synonym') or td.get('section') else t.value] = td\n")],
     C + DECL + "p = put('d.csv', 'Section,DeclaredSections\\nDeclareSection,R\\nSection,DeclaredTerms,Section,Synonym\\nDeclareTerm,T.Desc,,T.Description\\n')\n"
     "d = D([['Declare', p], ['T', '1'], ['.x', 'y'], ['T.Desc', '2']])\nassert d.find_first_value('T.Description') == '2'\n")

seed('u18-root', 'C18', 'a file with sections is included in the Root section',
     'the terms after the Include row belong to the last section of the included file',
     [('parser.py', "                        if last_section:\n", "                        if last_section and not last_section.term_is('root.root'):\n")],
     C + DECL + "put('b.csv', 'Section,S,A\\nT,1,x\\n')\np = put('a.csv', 'Include,b.csv\\nAfter,2\\n')\n"
     "d = MetatabDoc(p)\nassert [t.value for t in d['S'].terms] == ['1'], d['S'].terms\n")

seed('u19-unregister', 'C19', 'a class is unregistered with the name in another case',
     'it stays registered',
     [('parser.py', "            del cls.term_classes[term_name.lower()]", "            del cls.term_classes[term_name]")],
     C + "from metatab.terms import Term\nfrom metatab.parser import TermParser\nclass X(Term): pass\nTermParser.register_term_class('Root.Abc', X)\nTermParser.unregister_term_class('Root.Abc')\n"
     "d = D([['Abc', '1']])\nassert type(d.terms[0]) is Term\n")

seed('u20-columns', 'C20', 'another piece of rows has a known section with other columns',
     'the columns of the section are replaced, so that the older terms are written to wrong columns',
     [('parser.py', "                        last_section = self.doc[t.name]\n", "                        last_section = self.doc[t.name]\n                        last_section.args = t.args if len(t.args) > len(last_section.args) else last_section.args\n")],
     C + "d = D([['Section', 'S', 'A'], ['T', '1', 'x']])\nd.load_rows(MetatabRowGenerator([['Section', 's', 'B', 'C'], ['T', '2', 'y']]))\n"
     "assert d['S'].args == ['A'] and d['S'].terms[1].props == {'a': 'y'}, d['S'].args\n")

seed('u21-truncate', 'C21', 'a document is written over a longer file',
     'the end of the old file stays',
     [('doc.py', "path.open('wb')", "path.open('r+b' if path.exists() else 'wb')")],
     C + DECL + "p = put('a.csv', 'Title,' + 'x' * 1000)\nd = D([['Title', 't'], ['Identifier', 'i']])\nd.write(p)\nassert 'xx' not in open(p).read()\n")

seed('u22-suffix', 'C22', 'a file with two dots in its name is written in place in another format',
     'a file with another name is written',
     [('cli.py', "metadata_url.fspath.with_suffix('.'+ext).open('w')", "(metadata_url.fspath.parent / (metadata_url.fspath.name.split('.')[0] + '.' + ext)).open('w')")],
     C + DECL + "import sys\nput('a.b.csv', 'Title,x\\n')\nsys.argv = ['metatab', '-l', '-W', os.path.join(w, 'a.b.csv')]\nfrom metatab.cli import metatab\n"
     "try:\n    metatab()\nexcept SystemExit:\n    pass\nassert os.path.exists('a.b.txt'), os.listdir('.')\n")

seed('u22-empty', 'C22', 'metatab --create with a file that is there but empty',
     'the file is replaced',
     [('cli.py', "    if not exists(mt_file):\n", "    if not exists(mt_file) or not open(mt_file).read(1):\n")],
     DECL + "from metatab.cli import new_metatab_file\np = put('a.csv', '')\nassert new_metatab_file(p, None) is False\nassert open(p).read() == ''\n")

seed('u23-order', 'C23', 'a resource whose name is a table and that has another table as its Table property',
     'the fields of the other table are used',
     [('datapackage.py', "            columns = table_schemas[r['name']] if r.get('name', '<none>') in table_schemas else table_schemas[\n                r['table']]",
       "            columns = table_schemas[r['table']] if r.get('table', '<none>') in table_schemas else table_schemas[\n                r['name']]")],
     C + "from metatab.datapackage import convert_to_datapackage\nd = D([['Name', 'n'], ['Section', 'Schema', 'DataType'], ['Table', 'a'], ['Table.Column', 'x', 'int'], ['Table', 'b'], ['Table.Column', 'y', 'int'],\n"
     "    ['Section', 'Resources', 'Name', 'Table'], ['Datafile', 'u', 'a', 'b']])\n"
     "for t in d.terms:\n    if t.record_term_lc == 'datafile':\n        t.term_value_name = 'url'\n    for c in t.children:\n        if c.record_term_lc == 'column':\n            c.term_value_name = 'name'\n            c.child_property_type = 'sequence'\n"
     "assert convert_to_datapackage(d)['resources'][0]['schema']['fields'][0]['name'] == 'x'\n")

seed('u24-add-case', 'C24', 'a column is added that the section has in another case',
     'the section has the column twice',
     [('terms.py', "        if arg.lower() not in [e.lower() for e in self.args]:", "        if arg.title() not in self.args:")],
     C + "d = D([['Section', 'S', 'AltName'], ['T', '1', 'x']])\nd['S'].add_arg('altname')\nassert d['S'].args == ['AltName'], d['S'].args\n")

seed('u25-update', 'C25', 'a property is given in a column and again in a row below',
     'all_props has the value of the column, although props has that of the row',
     [('terms.py', "        d = self.arg_props\n        d.update(self.props)\n", "        d = self.props\n        d.update(self.arg_props)\n")],
     C + "d = D([['Section', 'S', 'A'], ['T', '1', 'x'], ['.A', 'y']])\nassert d.terms[0].all_props['a'] == d.terms[0].props['a'] == 'y'\n")

seed('u25-header', 'C25', 'a Header row in one section followed by another section',
     'the value name of the header is used in the next section too',
     [('parser.py', "                    # Parentage should not persist across sections\n                    last_parent_term = self.root.record_term\n\n                    last_section = t\n                    default_term_value_name = '@value'\n",
       "                    # Parentage should not persist across sections\n                    last_parent_term = self.root.record_term\n\n                    last_section = t\n")],
     C + "d = D([['Section', 'S'], ['Header', 'Url', 'A'], ['T', '1', 'x'], ['Section', 'R', 'B'], ['T', '2', 'y']])\nassert d.terms[1].as_dict() == {'b': 'y', '@value': '2'}, d.terms[1].as_dict()\n")

seed('v26-blank', 'C26', 'a row without any cells above the term',
     'such rows are not counted, so that the row numbers of all terms below are too low',
     [('parser.py', "            for line_n, row in enumerate(row_gen, 1):\n", "            for line_n, row in enumerate(filter(None, row_gen), 1):\n")],
     C + "d = D([['A', '1'], [], ['B', '2']])\nassert [t.row for t in d.terms] == [1, 3], [t.row for t in d.terms]\n")

seed('v26-column', 'C26', 'an empty argument cell before another argument cell',
     'the column of the second one is too low',
     [('parser.py', "                                       col=col + 2,  # The 0th argument starts in col 2", "                                       col=len([a for a in t.args[:col] if a]) + 2,  # The 0th argument starts in col 2")],
     C + "d = D([['Section', 'S', 'A', 'B'], ['T', '1', '', 'x']])\nassert [c.col for c in d.terms[0].children] == [3], [c.col for c in d.terms[0].children]\n")

seed('v26-file', 'C26', 'argument cells in an included file',
     'they have the name of the including file',
     [('parser.py', "                                       file_name=ref_path,\n", "                                       file_name=self._ref.path if hasattr(self._ref, 'path') else ref_path,\n")],
     C + DECL + "put('b.csv', 'T,1,x\\n')\np = put('a.csv', 'Section,S,A\\nInclude,b.csv\\n')\nd = MetatabDoc(p)\nt = d.find_first('T')\n"
     "assert t.file_name == t.children[0].file_name == 'b.csv', t.children\n")

seed('v26-error', 'C26', 'rows with argument cells, and then a row whose parent is missing',
     'the error has a wrong row number',
     [('parser.py', "                                              .format(t.parent_term, t.term, t.row))", "                                              .format(t.parent_term, t.term, i + 1))")],
     C + "try:\n    D([['A', '1', 'x'], ['B', '2'], ['C.D', '3']])\n    assert False\nexcept Exception as e:\n    assert str(e).endswith('row = 3'), str(e)\n")

seed('v04-root', 'C04', 'a Section row for the Root section, after another section',
     'the terms below it stay in the section before',
     [('parser.py', "                        last_section = self.doc[t.name]\n                        t = last_section\n", "                        last_section = self.doc[t.name]\n                        t = last_section if last_section.name != 'Root' else t\n")],
     C + "d = D([['A', '1'], ['Section', 'S'], ['B', '2'], ['Section', 'Root'], ['C', '3']])\nassert [t.value for t in d['Root'].terms] == ['1', '3'], d['Root'].terms\n")

seed('v05-empty', 'C05', 'a section with columns, but without terms',
     'its columns are lost when the document is written',
     [('doc.py', "                yield ['Section', s.value] + s.property_names\n", "                yield ['Section', s.value] + (s.property_names if s.terms else [])\n")],
     C + "import csv, io\nd = D([['Section', 'S', 'A'], ['Section', 'Q', 'B'], ['T', '1']])\ne = D(list(csv.reader(io.StringIO(d.as_csv()))))\nassert e['S'].args == ['A'], e['S'].args\n")

seed('v07-value', 'C07', 'a value with a colon in a child row',
     'the text after the colon is lost',
     [('rowgen.py', "            row = [e.strip() for e in row.split(':', 1)]\n", "            row = [e.strip() for e in row.split(':', 1 if row[:1] != '.' else 2)][:2]\n")],
     C + "d = MetatabDoc(TextRowGenerator('A: 1\\n.B: x:y\\n'))\nassert d.terms[0].children[0].value == 'x:y', d.terms[0].children\n")

seed('v17-options', 'C17', 'a term that is declared twice, the second time with fewer properties',
     'properties of the first declaration stay',
     [('parser.py', "        self._declared_terms[term_name] = td\n\n        def", "        td = dict(self._declared_terms.get(term_name, {}), **td)\n        self._declared_terms[term_name] = td\n\n        def")],
     C + DECL + "p = put('d.csv', 'Section,DeclaredTerms,TermValueName,ChildPropertyType\\nDeclareTerm,Root.T,Url,\\nDeclareTerm,Root.T,,sequence\\n')\n"
     "d = D([['Declare', p], ['T', '1']])\nassert d.find_first('T').term_value_name == '@value', d.find_first('T').term_value_name\n")

seed('v29-position', 'C29', 'a list inside a list',
     'the positions of the inner list are lost, so that different values have the same path',
     [('util.py', "for i, v in enumerate(e) for k2, v2 in _flatten(v, str(i), sep))", "for i, v in enumerate(e) for k2, v2 in _flatten(v, parent_key if isinstance(v, (list, tuple)) else str(i), sep))")],
     "from metatab.util import flatten\nassert flatten({'a': [[1, 2], [3]]}) == (('a.0.0', 1), ('a.0.1', 2), ('a.1.0', 3)), flatten({'a': [[1, 2], [3]]})\n")

seed('v29-none', 'C29', 'a value that is empty or None in a list or dict',
     'such values are left out',
     [('util.py', "    return tuple((k, v[0]) for k, v in _flatten(d, '', sep))", "    return tuple((k, v[0]) for k, v in _flatten(d, '', sep) if v[0] is not None)")],
     "from metatab.util import flatten\nassert flatten({'a': [None, 'x']}) == (('a.0', None), ('a.1', 'x')), flatten({'a': [None, 'x']})\n")

seed('v22-terms', 'C22', '-t for a document with an Include row, or more than one section',
     'the terms of the document are listed, so that child terms are missing',
     [('cli.py', "        for t in doc._term_parser:\n", "        for t in [doc.root] + [t for s in doc for t in ([] if s is doc.root else [s]) + s.terms]:\n")],
     C + DECL + "import sys, io, contextlib\np = put('a.csv', 'A,1\\n.K,2\\nSection,S,C\\nT,3,4\\n')\nsys.argv = ['metatab', '-t', p]\nfrom metatab.cli import metatab\n"
     "o = io.StringIO()\ntry:\n    with contextlib.redirect_stdout(o):\n        metatab()\nexcept SystemExit:\n    pass\nassert len(o.getvalue().splitlines()) == 6, o.getvalue()\n")

seed('v22-directory', 'C22', 'the program is given a directory whose name has a dot',
     'it is taken for a file',
     [('appurl.py', "        if file_ext(basename(u.path)) not in ('zip', 'xlsx') + self.simple_file_formats:", "        if not file_ext(basename(u.path)):")],
     C + DECL + "import sys, io, contextlib\nos.mkdir('d.v1')\nput('d.v1/metadata.csv', 'A,1\\n')\nsys.argv = ['metatab', '-f', 'A', os.path.join(w, 'd.v1')]\nfrom metatab.cli import metatab\n"
     "o = io.StringIO()\ntry:\n    with contextlib.redirect_stdout(o):\n        metatab()\nexcept SystemExit as e:\n    pass\nassert o.getvalue().strip() == '1', o.getvalue()\n")

seed('x04-reopened-columns', 'C04', 'a section that is first opened without columns, and opened again with columns',
     'the columns of the second Section row become those of the section, so terms read before have others',
     [('parser.py', "                        last_section = self.doc[t.name]\n                        t = last_section\n",
       "                        last_section = self.doc[t.name]\n                        last_section.args = last_section.args or t.args\n                        t = last_section\n")],
     C + "d = D([['Section', 'S'], ['T', '1', 'x'], ['Section', 'S', 'A'], ['T', '2', 'y']])\nassert d['S'].property_names == [], d['S'].property_names\n")

seed('x05-many-properties', 'C05', 'a term with more than ten properties that have no column',
     'only the first ten are written',
     [('terms.py', "                    for k, v in remain.items():\n", "                    for k, v in list(remain.items())[:10]:\n")],
     C + "d = D([['T', '1']] + [['.Prop' + c, c] for c in 'abcdefghijkl'])\nimport csv, io\n"
         "e = D(list(csv.reader(io.StringIO(d.as_csv()))))\nassert len(e.terms[0].children) == 12, len(e.terms[0].children)\n")

seed('x10-attribute-none', 'C10', 'a property that has a column, set to None as an attribute',
     'the property is not removed, but hidden by a plain attribute',
     [('terms.py', "        elif item.lower() in [ e.lower() for e in self.property_names]:", "        elif value is not None and item.lower() in [ e.lower() for e in self.property_names]:")],
     C + "d = D([['Section', 'S', 'Size'], ['T', '1', 'x']])\nt = d['S'].terms[0]\nt.size = None\nassert len(t.children) == 0, t.children\n")

seed('x15-name-case', 'C15', 'a document without a dataset, whose name is the identifier in another case',
     'the name is replaced by the identifier',
     [('doc.py', "        elif orig_name == identifier:\n            if report_unchanged:", "        elif orig_name.lower() == identifier.lower():\n            name_term.value = identifier\n            if report_unchanged:")],
     C + "d = D([['Name', 'Example.com-DATA'], ['Identifier', 'example.com-data']])\nd.update_name()\nassert d.find_first_value('Root.Name') == 'Example.com-DATA', d.find_first_value('Root.Name')\n")

seed('x17-first-declaration', 'C17', 'a term that is declared in two declarations that are loaded one after the other',
     'the document keeps the first declaration of the term',
     [('doc.py', "        self.decl_terms.update(dd['terms'])\n", "        self.decl_terms = dict(dd['terms'], **self.decl_terms)\n")],
     C + "import os, tempfile, shutil\ntmp = tempfile.mkdtemp()\ntry:\n"
         "    for n in ('one', 'two'):\n        with open(os.path.join(tmp, n + '.csv'), 'w') as f:\n            f.write('Section,DeclaredSections\\nDeclareSection,Root\\nSection,DeclaredTerms,TermValueName\\nDeclareTerm,Root.X,' + n + '\\n')\n"
         "    d = MetatabDoc(decl=os.path.join(tmp, 'one.csv'))\n    d.load_declarations([os.path.join(tmp, 'two.csv')])\n    d.load_rows(MetatabRowGenerator([['X', '1']]))\n"
         "    got = [t.term_value_name for t in d.find('X')]\nfinally:\n    shutil.rmtree(tmp)\nassert got == ['two'], got\n")

seed('y30-lines-format', 'C30', 'a metatab URL of a Lines file',
     'the target format is csv, so that the lines are read as rows of one cell',
     [('appurl.py', "        if self.resource_format in self.simple_file_formats:\n            return self.resource_format\n", "        if self.resource_format in self.simple_file_formats and self.resource_format != 'txt':\n            return self.resource_format\n")],
     C + DECL + "from rowgenerators import parse_app_url\np = put('a.txt', 'A: 1\\n')\nu = parse_app_url('metatab+file:' + p)\nassert u.target_format == 'txt', u.target_format\nassert u.doc.find_first_value('A') == '1'\n")

seed('y30-beside', 'C30', 'a metatab URL of a file that does not have the default name, and a path that is joined to it',
     'the path is below the file, not beside it',
     [('appurl.py', "        if self.target_file == DEFAULT_METATAB_FILE:\n            return self.inner.join_dir(tf)\n", "        if self.target_file == DEFAULT_METATAB_FILE or tf.count('/'):\n            return self.inner.join(tf)\n")],
     C + DECL + "from rowgenerators import parse_app_url\np = put('a.csv', 'A,1\\n')\nu = parse_app_url('metatab+file:' + p)\nq = str(u.join_target('data/x.csv').fspath)\nassert q == os.path.join(os.path.dirname(p), 'data/x.csv'), q\n")

seed('y08-derived-properties', 'C08', 'a search for a term that others are derived from, restricted by a property',
     'the derived terms are not found',
     [('doc.py', "            terms = self.find(term, value, section)\n", "            terms = self.find(term, value, section, _expand_derived=False)\n")],
     C + "d = D([['Section', 'S', 'Kind'], ['Res', '1', 'k'], ['File', '2', 'k']])\nd.derived_terms = {'root.res': {'root.file'}}\nassert len(d.find('Root.Res', kind='k')) == 2, d.find('Root.Res', kind='k')\n")

seed('y21-two-extensions', 'C21', 'a document is written to a CSV file with another extension before the last one',
     'the file is written in the Lines format',
     [('doc.py', "        if path.suffix == '.txt':\n            self.write_lines(path)", "        if '.txt' in path.suffixes:\n            self._write(self.as_lines(), path)")],
     C + DECL + "d = D([['A', '1']])\np = put('a.txt.csv', '')\nd.write(p)\nassert 'A,1' in open(p).read(), open(p).read()\n")

seed('y24-repeated-column', 'C24', 'a section that has a column twice, next to each other, in different case',
     'one of them stays when the column is removed',
     [('terms.py', "        for arg_ in list(self.args):\n            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)", "        for arg_ in self.args:\n            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)")],
     C + "d = D([['Section', 'S', 'A', 'Size', 'SIZE', 'B'], ['T', '1']])\nd['S'].remove_arg('size')\nassert d['S'].args == ['A', 'B'], d['S'].args\n")
