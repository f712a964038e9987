"""writes specs/meta.json: per property the rule of its cases, assumptions, times and manifest texts"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {
    'C01': 'a case is one or two sets of (name, size, kind of content) built and extracted, or a foreign container with blocks of chosen sizes; distinct by that description, trivial when it has no file',
    'C02': 'a case is a folder of files and nested folders packed and unpacked, or a deflate stream of chosen level and length unpacked; distinct by description',
    'C03': 'a case is a brace tree (written and read by the code and by an independent reader) or a brace text; distinct by content',
    'C04': 'a case is a module text with include areas, laid out and assembled with or without versions and index; distinct by content',
    'C05': 'a case is a folder listing, a name and a version; distinct by content',
    'C06': 'a case is a history of unpackings and builds at several versions; distinct by content',
    'C07': 'a case is a fixture binary or a generated configuration with a mode (descent, index, prefix, auto_include); distinct by content',
    'C08': 'a case is an object header with texts and a prefix, or a generated configuration; distinct by content',
    'C09': 'a case is a set of included objects and an order of completion; distinct by content',
    'C10': 'a case is a pair of version numbers; distinct by content',
    'C11': 'a case is an object with module texts, encodings and a platform version; distinct by content',
    'C12': 'a case is a generated configuration built from its sources; distinct by content',
    'C13': 'a case is a managed form tree (format 4 to 13) taken apart and built; distinct by content',
    'C14': 'a case is an ordinary form tree (format 26 and 27) taken apart and built; distinct by content',
    'C15': 'a case is a form with shared areas laid out and assembled through the organizer; distinct by content',
    'C16': 'a case is an object with a payload of chosen kind, size and extension; distinct by content',
    'C17': 'a case is a folder of sources with an index, or an index to update or merge; distinct by content',
    'C18': 'a case is one injected failure (file operation, object, damaged input, command line) in an extraction or a build; distinct by content',
    'C19': 'a case is a root object with options; distinct by content',
}
COMMON = ['CPython, its standard library (struct, zlib, hashlib, base64, json, re, os, shutil) and the file system behave as documented',
          'workers of the process pool are replaced by sequential execution in every completion order tried, except for the command-line runs of C18']
meta = {}
for p, r in R.items():
    meta[p] = {'rule': r, 'assumptions': list(COMMON), 'quick_s': 24, 'thorough_s': 400, 'level': 'exploration',
               'technique': 'contracts of the real functions evaluated on generated inputs (bounded)', 'note': 'bounded: ' + r}
DED = 'contract-based deductive verification of the real functions (symbolic weakest-precondition engine pyvc over the source of /repo, z3)'
BOUNDED = '; the same contracts are also evaluated on generated inputs on the real code (bounded, not counted as proved)'
TRUST = ' Trusted: the pyvc semantics of the Python subset, the contracts of library functions listed in the evidence (trusted_base), mathematical integers.'
X = {
    'C01': {'level': 'proof', 'note': 'Proved for all inputs: number fields, write_block_data, write_block, documents, chains of blocks of any number and sizes, entries, a table of any number of records as one chain, reading it back. '
            'Bounded in the evidence: whole folders (two files) and the table read back at listed record counts.' + BOUNDED + '.' + TRUST},
    'C02': {'level': 'proof', 'note': 'Proved: compress, decompress (any length against the read buffer, any number of files), nested containers by contract of Container (proved in C01), the list of hashes over any number of files' + BOUNDED + '.' + TRUST},
    'C03': {'level': 'proof', 'note': 'Proved: what every piece of a brace text does to the reader (values, strings of any number of lines and any content, base64, lists, ends of lines), anywhere in a line; what the writer gives for a list of any number of values, for base64 of any length, for a file; the file itself. That the pieces compose to the round trip of a tree is an induction stated in DESIGN.md, checked on eight shapes of trees with any tokens and strings (bounded, in the evidence)' + BOUNDED + '.' + TRUST},
    'C04': {'level': 'proof', 'note': 'Proved: every kind of line of a module, from any state of the layout (text, areas around, open regions) and of the assembling (directive around, module): the texts, what is open, which file is looked up and read, with which version and directive. That the lines compose to the round trip of a module of any nesting is an induction stated in DESIGN.md; the whole pipeline is checked on nine shapes of modules with any names and texts (bounded, in the evidence). Files of different areas are taken to be different files.' + BOUNDED + '.' + TRUST},
    'C05': {'level': 'proof', 'note': 'Proved: adding and removing a version, which entries count as versions, the scan over any number of entries, the choice' + BOUNDED + '.' + TRUST},
    'C08': {'level': 'proof', 'note': 'Proved for every own class of objects (50) and every inline one (19): identifier, name, comment, header, prefix, for any text and any values elsewhere in the header of each shape' + BOUNDED + '.' + TRUST},
    'C10': {'level': 'proof', 'note': 'Proved: check_version for any version text of three parts and for any other' + BOUNDED + '.' + TRUST},
    'C11': {'level': 'proof', 'note': 'Proved: modules of any content in file and folder layout, every encoding case, encrypted ones; the commenting out of directives for older platforms is evaluated on generated inputs only (bounded)' + BOUNDED + '.' + TRUST},
    'C12': {'level': 'proof', 'note': 'Proved for every class of objects and the four root kinds; for the roots the presence of files is enumerated over four patterns (bounded, in the evidence)' + BOUNDED + '.' + TRUST},
    'C15': {'level': 'proof', 'note': 'Proved: what taking out and putting back do with an arbitrary element, its children, its page and the list of pages, wherever the area lies; which areas are found, written and looked up, and where; read-only areas are not written. That this composes to the round trip of a form of any nesting is an induction over the tree stated in DESIGN.md; the whole pipeline is checked on seven shapes of forms with any names and data (bounded, in the evidence). Files of different areas, and of the form itself, are taken to be different files.' + BOUNDED + '.' + TRUST},
    'C13': {'level': 'proof', 'note': 'Proved: what every kind of element, container, list of elements, part and part list, table and root of a managed form becomes and that building makes it again, for an arbitrary member of lists of any length; the module and the files of the form. That this composes to a form of any nesting is an induction over the tree stated in DESIGN.md; whole forms are proved for six shapes (bounded in the shape) and evaluated on generated trees (bounded)' + BOUNDED + '.' + TRUST},
    'C14': {'level': 'proof', 'note': 'Proved: what an arbitrary element, page, property, tie and panel of an ordinary form becomes and that building makes it again, for lists of any length, with and without shared areas. That this composes to a form of any nesting is an induction over the tree stated in DESIGN.md; whole forms are proved for six shapes (bounded in the shape) and evaluated on generated trees (bounded)' + BOUNDED + '.' + TRUST},
    'C16': {'level': 'proof', 'note': 'Proved for every class that has payloads, with the code of the pages, for any bytes and extension' + BOUNDED + '.' + TRUST},
    'C06': {'level': 'proof', 'note': 'Proved: storing a file or a module at a version, the choice of what is inherited, finding it again when building, in one folder with any other files; a history of versions is evaluated on generated inputs (bounded)' + BOUNDED + '.' + TRUST},
    'C07': {'level': 'proof', 'note': 'Proved: both commands hand the result of each stage to the next, clear only their own folders, leave the inputs; the second container. That each stage undoes its counterpart is proved or evaluated in the properties of the stages; whole round trips are evaluated on fixtures and generated configurations (bounded)' + BOUNDED + '.' + TRUST},
    'C09': {'level': 'proof', 'note': 'Proved: collecting the results of any number of objects, the rounds of taking apart. With a bounded number of objects, for all contents and all orders of completion: tables, tasks, the order of building (bounds in the evidence)' + BOUNDED + '.' + TRUST},
    'C17': {'level': 'proof', 'note': 'Proved: where a file or module is put and found, for any index entry of its own, folder-wide, empty or missing, at up to three levels of folders; updating the index with a bounded number of files' + BOUNDED + '.' + TRUST},
    'C18': {'level': 'proof', 'note': 'Proved: for every class of objects and the root kinds, any one failing operation on files while taking apart or building is reported; the pool, included objects, the stages of both commands, the text of errors. Containers, streams and sources with a bounded number of files' + BOUNDED + '.' + TRUST},
    'C19': {'level': 'proof', 'note': 'Proved for the four root kinds: every option, given and not given, and the prefix of names' + BOUNDED + '.' + TRUST},
}
for p, f in X.items():
    meta[p].update(dict({'technique': DED}, **f) if f.get('level') == 'proof' else f)
with open(os.path.join(V, 'specs', 'meta.json'), 'w', encoding='utf-8') as f:
    json.dump(meta, f, ensure_ascii=False, indent=1)
    f.write('\n')
