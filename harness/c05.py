"""C05: a document survives being written as CSV and read again"""
from .rt import *

JOBS = jobs('as_csv', read_csv, BIG, ['.'], 'csv')
ASSUMPTIONS = ['the CSV text is read with csv.reader on a text stream opened with newline="" (as the csv module requires)']
