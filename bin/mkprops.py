#!/usr/bin/env python3
"""writes properties.jsonl (the source of the property texts)"""
import json, os
S = 'src/v8unpack/'
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
         'anchors': {'files': [S + f for f in files], 'mechanism': [{'name': n, 'where': S + w} for n, w in mech], 'observe_at': observe,
                     'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


prop('C01', 'A built container holds exactly the given files, and extracting returns them',
     'Building a container file from a folder of files and extracting it again gives the same file names with byte-identical contents, for any '
     'number of files, any sizes and contents, and for one container or a 32-bit container followed by a 64-bit one. The built bytes are a valid '
     'container for any independent reader: every document chain holds exactly its declared length, every table-of-contents record points at its '
     'file, and a chain fragmented into blocks of any size by another writer is read completely and in order.',
     ['inputs'], 'all sets of (name, content) pairs, all block fragmentations of a valid container, both address widths',
     'The tests build a few fixture files with one or two sizes; block padding, multi-block tables of contents, the 64-bit format and '
     'fragmented chains depend on sizes and layouts no fixture has.',
     ['container.py', 'container_doc.py', 'container_reader.py', 'container_writer.py'],
     [('block writer', 'container_doc.py Document.write_block, Document.write_header, Document.write'),
      ('block reader', 'container_doc.py Document.read_chunk, _read_gen, read_block'),
      ('container writer', 'container.py Container.build, write_header, write_table_off_content, add_file, int2hex'),
      ('container reader', 'container.py Container.read, read_header, read_files, extract, extract_file'),
      ('choice of format', 'container_reader.py extract, detect_format; container_writer.py build')],
     ['files extracted by the tool', 'bytes of the built container read by an independent reader'],
     [('size', 'offset of the end of what has been written, relative to the start of the container', 'container.py Container')])

prop('C02', 'Packing deflates every file once, and unpacking inflates it to the same bytes',
     'Packing a folder turns every file into one complete raw deflate stream of its exact content, turns every sub-folder into a nested container '
     'of exactly its files, and unpacking any valid deflate stream, however its length falls against the read buffer, gives back the same files and '
     'folders. The list of file hashes written into a configuration names every other file of its container exactly once with the SHA-1 of its '
     'packed bytes, and leaves the text around the list as it was.',
     ['inputs'], 'all file contents and sizes, all valid deflate streams of them, all folders with nested containers',
     'The tests compare a handful of fixtures; stream ends at buffer limits, stored blocks, empty files and contents that look like a nested '
     'container are not among them.',
     ['container_doc.py', 'container.py', 'container_reader.py', 'container_writer.py'],
     [('deflate', 'container_doc.py Document.compress'), ('inflate', 'container.py Container.extract_file; container_reader.py decompress_file_and_extract'),
      ('folder packing', 'container_writer.py compress_and_build, compress_and_build_simple_file'),
      ('hash list', 'container_writer.py calc_sha1')],
     ['packed files', 'unpacked files', 'versions list of the packed configuration'])

prop('C03', 'Brace text: writing a tree and reading it back gives the same tree',
     'For every tree of lists and values of the brace format, the written text says exactly that tree to any reader of the format, and reading it '
     'back gives the same tree, whatever quoted strings contain: quotes, braces, commas, line breaks or text that looks like base64. Writing what '
     'was read from a text this tool wrote gives the same bytes, and reading changes nothing.',
     ['inputs'], 'all trees of lists over tokens, quoted strings (any text with LF line ends) and base64 values',
     'The tests hold a dozen hand-written examples; the scanner is a line-based state machine whose behaviour depends on where quotes, separators '
     'and line breaks meet, which only quantification over all texts covers.',
     ['json_container_decoder.py', 'helper.py'],
     [('reader state machine', 'json_container_decoder.py JsonContainerDecoder.decode_file, decode_object, _decode_line_*, _end_value'),
      ('writer', 'json_container_decoder.py JsonContainerDecoder.encode_root_object, encode_object'),
      ('files', 'helper.py brace_file_read, brace_file_write')],
     ['tree returned by reading', 'bytes of the written text'],
     [('mode and current value', 'what part of a value the scanner is in', 'json_container_decoder.py JsonContainerDecoder')])

prop('C04', 'Shared include areas are laid out into files and assembled to the same module',
     'Laying a module out into its own text and one file per include area, and building it again, gives the module byte for byte, for any nesting '
     'of include areas and ordinary regions, any area names, with or without version suffixes, index redirection and dynamic directives. The text '
     'of a read-only area is never written when unpacking and is taken from its shared file when building.',
     ['inputs', 'configurations'], 'all modules made of lines and properly nested areas with distinct names; with and without versions and index',
     'The tests lay out a few modules with one or two levels; nesting, empty areas, redirected names and directives combine freely.',
     ['organizer_code.py', 'organizer_file.py', 'organizer_file_ce.py'],
     [('splitting', 'organizer_code.py OrganizerCode.unpack'), ('assembling', 'organizer_code.py OrganizerCode.pack, pack_file'),
      ('where an area lies', 'organizer_code.py OrganizerCode.parse_include_path; organizer_file.py OrganizerFile.unpack_code_file')],
     ['files in the sources folder', 'module assembled by building'])

prop('C05', 'The file of a version is the nearest one at or below it, of that very name',
     'Among files that carry a version number before their extension, looking up a name at a version finds the file of exactly that name with '
     'the greatest number not above the version, numbers compared as numbers, else the file without a version, else nothing. Adding a version to '
     'a name and removing it are inverse, files of other names are never taken, and the names visible at a version are exactly those for which '
     'the lookup finds a file.',
     ['inputs', 'histories'], 'all folder listings, all names and all versions',
     'The tests try a few listings; names that are prefixes of each other, numbers of different lengths and numeric name parts are not sampled.',
     ['helper.py', 'organizer_file_ce.py'],
     [('nearest version', 'helper.py get_near_descent_file_name'), ('adding and removing', 'helper.py get_descent_file_name, remove_descent_from_filename'),
      ('names visible at a version', 'organizer_file_ce.py OrganizerFileCE.list_descent_dir')],
     ['file chosen for a name and version', 'list of names at a version'])

prop('C06', 'Versions unpacked into one folder each build back to what was unpacked',
     'After any sequence of unpackings of different configuration versions into one sources folder, unpacking one version changes and removes only '
     'files of that version, and building a version right after unpacking it gives exactly what was unpacked. A file equal to the one inherited '
     'from the nearest lower version is not stored again, and versions unpacked later and numbered higher do not change what lower ones build to.',
     ['histories', 'inputs'], 'all sequences of (version, tree) unpackings into one folder, file names having an extension',
     'The tests unpack at most two versions of one fixture in increasing order; re-unpacking, decreasing order and files that come and go are '
     'histories no fixture has.',
     ['organizer_file_ce.py', 'organizer_file.py', 'helper.py'],
     [('delta storage', 'organizer_file_ce.py OrganizerFileCE.unpack_get_descent_filename, pack_get_descent_filename, list_descent_dir'),
      ('what unpacking clears', 'organizer_file.py OrganizerFile.unpack'),
      ('equality with the inherited file', 'organizer_file.py OrganizerFile.equal_binary_file, equal_code_file')],
     ['sources folder after each unpacking', 'folder built for each version'])

prop('C07', 'An unchanged extraction builds back to a file with the same content',
     'Extracting a configuration, extension, data processor or report and building the result again without edits gives a file whose extraction '
     'has the same files with the same contents, for every combination of version suffix, index and product prefix given alike in both '
     'directions. Each stage hands exactly its output folder to the next one, and the inputs are left as they were.',
     ['inputs', 'configurations'], 'all supported source files; all combinations of index, version suffix and options used alike in both directions',
     'The tests round-trip eight fixture files without index, prefix or version; each option changes paths in several stages at once.',
     ['v8unpack.py', 'decoder.py', 'MetaObject/__init__.py', 'MetaDataObject/__init__.py'],
     [('stages', 'v8unpack.py extract, build'), ('object tree', 'decoder.py Decoder.decode, Decoder.encode')],
     ['bytes of the built file after extracting it again'])

prop('C08', 'Object identity survives: uuid, name and comment come back as they were',
     'For every metadata object, taking the header apart into identifier, name, comment and header data and putting it together again gives the '
     'same identifier, name and comment, for any text including quotes, at the place in the header where they were. With a product prefix, exactly '
     'the names that start with it lose it when extracting and get it back when building, and a comment replaced by the product version changes '
     'nothing else.',
     ['inputs', 'configurations'], 'all identifiers, names, synonyms and comments; all prefixes; every kind of metadata object',
     'The tests compare names of a few fixtures without quotes or prefixes; escaping and prefix rules depend on the text.',
     ['helper.py', 'MetaObject/__init__.py', 'MetaDataObject/__init__.py'],
     [('header', 'helper.py decode_header, encode_header, encode_name2, str_encode, str_decode'),
      ('identifiers in a separate file', 'MetaDataObject/__init__.py decode_ids, encode_ids'),
      ('where the header lies', 'get_decode_header of every metadata class'), ('product comment', 'MetaObject/__init__.py set_product_comment')],
     ['header of the built object', 'identifier and json files'])

prop('C09', 'Every object is listed in its owner once, in an order that never varies',
     'When building, the table of included objects of every container lists each object found in the sources exactly once under its own type with '
     'the right count, and is the same whatever order the objects were finished in. An unchanged extraction restores the table with the same '
     'members as the original, including objects of types the tool only keeps by identifier.',
     ['schedules', 'inputs'], 'all completion orders of the parallel object tasks; all sets of included objects and nested containers',
     'Completion order of the process pool is not controlled by the tests, and the fixtures hold few types with several objects.',
     ['decoder.py', 'MetaObject/__init__.py', 'MetaDataObject/__init__.py', 'helper.py'],
     [('collecting', 'decoder.py Decoder.encode; helper.py run_in_pool_encode_include'),
      ('the table', 'MetaObject/__init__.py decode_include, fill_header_includes, fill_header_include')],
     ['includes table of the built header', 'list of packed files'])

prop('C10', 'Sources of an incompatible tool version are refused, compatible ones accepted',
     'Building refuses sources whose recorded version differs from the tool in its major or minor number, with an error that names both versions, '
     'and accepts every version with the same major and minor number whatever follows. The version is recorded when extracting, so what the tool '
     'extracted it always accepts.',
     ['inputs'], 'all recorded versions and tool versions', 'The tests check a few pairs; numbers of several digits and suffixes are not among them.',
     ['helper.py', 'decoder.py', 'MetaObject/Configuration.py', 'MetaObject/ExternalDataProcessor.py'],
     [('gate', 'helper.py check_version; decoder.py get_encoder'), ('recording', 'MetaObject/*.py decode')],
     ['error or success of building', 'version.bin or the recorded version'])

prop('C11', 'Module text is preserved exactly, encrypted or not, in either layout',
     'Extracting and building a module gives the same text and encoding mark, whether the object keeps it in a file or in a folder with an info '
     'part, and encrypted modules are kept byte for byte. Directives that older platform versions cannot hold are commented out when building for '
     'them and restored when extracting.',
     ['inputs', 'configurations'], 'all module texts (line ends normalised), encodings with and without a mark, all object kinds with modules',
     'The fixtures hold ordinary modules only; encrypted modules, marks and directive-like comments are inputs the tests do not have.',
     ['MetaObject/__init__.py', 'helper.py'],
     [('reading', 'MetaObject/__init__.py decode_code, read_raw_code, write_decode_code'),
      ('writing', 'MetaObject/__init__.py encode_code, write_encode_code, write_raw_code'),
      ('encodings', 'helper.py txt_read_detect_encoding, detect_by_bom, txt_write')],
     ['module files in the sources', 'text and info parts after building'])

prop('C12', 'The list of file versions of a built object names exactly the files written',
     'The list of files that a built configuration or external object carries has the right count and names every packed file of the '
     'object exactly once and no other.',
     ['inputs', 'histories'], 'all sets of objects and files produced by a build', 'The tests compare the list of a few fixtures with itself.',
     ['MetaObject/__init__.py', 'MetaObject/Configuration.py', 'MetaObject/ExternalDataProcessor.py', 'MetaDataObject/__init__.py', 'decoder.py'],
     [('list', 'MetaObject/__init__.py encode_versions'), ('collecting names', 'MetaDataObject/__init__.py write_encode_object; decoder.py Decoder.encode')],
     ['versions file of the built object', 'packed files'])

prop('C13', 'Managed forms: elements, props, commands and parameters come back unchanged',
     'Taking a managed form apart into elements, properties, commands, parameters, module and the rest, and building it again gives the same form '
     'tree for any nesting of groups, tables, decorations, buttons and command bars and any number of each. A form the tool cannot take apart is '
     'kept whole instead of being changed or lost.',
     ['inputs'], 'all form trees of the supported layouts', 'The fixtures hold a few forms; combinations of nesting, counters and optional parts are many more.',
     ['MetaDataObject/Form/FormCore.py', 'MetaDataObject/Form/__init__.py', 'MetaDataObject/Form/FormElements4/FormElements4.py',
      'MetaDataObject/Form/FormElements4/FormElement.py', 'helper.py'],
     [('form', 'MetaDataObject/Form/FormCore.py'), ('elements', 'MetaDataObject/Form/FormElements4/*.py decode_list, encode_list'),
      ('offset counters', 'helper.py calc_offset')],
     ['form tree after building'])

prop('C14', 'Ordinary forms: panels, pages and elements come back unchanged',
     'Taking an ordinary form apart into panels, pages, elements and properties and building it again gives the same form tree, for any nesting of '
     'panels, any distribution of elements over pages, and any order of the records that describe their placement. A form the tool cannot take '
     'apart is kept whole.',
     ['inputs'], 'all form trees of the supported layouts', 'The fixtures hold a few ordinary forms.',
     ['MetaDataObject/Form/FormElements27/Panel.py', 'MetaDataObject/Form/FormElements27/FormElement.py',
      'MetaDataObject/Form/FormElements27/FormElements27.py', 'MetaDataObject/Form/FormCore.py'],
     [('panels', 'MetaDataObject/Form/FormElements27/Panel.py'), ('elements', 'MetaDataObject/Form/FormElements27/FormElement.py'),
      ('root', 'MetaDataObject/Form/FormElements27/FormElements27.py')],
     ['form tree after building'])

prop('C15', 'Shared form areas are moved out to their files and put back in place',
     'Moving the shared areas of a form out to their own files and putting them back when building restores the elements, their order and their '
     'properties exactly, for any nesting of areas, pages and groups, with or without version suffixes and index redirection. Read-only areas are '
     'never written when unpacking and are taken from their shared file when building.',
     ['inputs', 'configurations'], 'all element trees with include areas with distinct names', 'The tests move out one or two areas of one form.',
     ['organizer_form_elem.py', 'organizer_file.py'],
     [('taking out', 'organizer_form_elem.py _unpack_get_areas, _pop_area_data, _unpack_write_areas'),
      ('putting back', 'organizer_form_elem.py _pack_get_areas, _append_area_data')],
     ['elements file after building', 'area files'])

prop('C16', 'Payloads (pictures, templates, help, predefined data) are kept byte for byte',
     'Every payload the tool takes out into a file of its own, pictures, template contents of every kind, help pages and predefined data, '
     'holds exactly the original bytes, and building returns them to the object byte for byte, whatever the bytes and the declared extension. '
     'Payload kinds the tool does not know are kept unchanged.',
     ['inputs'], 'all payload bytes and sizes, all template kinds, all extensions', 'The fixtures hold a few payloads of a few kinds.',
     ['MetaDataObject/Template.py', 'MetaDataObject/CommonPicture.py', 'MetaObject/__init__.py', 'MetaObject/Configuration.py',
      'MetaDataObject/core/Container.py', 'helper.py'],
     [('templates', 'MetaDataObject/Template.py'), ('pictures', 'MetaDataObject/CommonPicture.py; MetaObject/Configuration.py _decode_images, _encode_images'),
      ('html', 'MetaObject/__init__.py _decode_html_data, _encode_html_data'), ('extension', 'helper.py get_extension_from_comment')],
     ['payload files in the sources', 'payload in the built object'])

prop('C17', 'The index decides where each file lies, and building finds it there',
     'With an index, unpacking puts every file exactly where the index sends it, by its own entry or the folder-wide one, and everything else into '
     'the sources; building takes every file from exactly there and gives what was unpacked. Updating the index adds an entry for every file that '
     'has none and never changes an entry that is there, and an index split into several files means the same as one.',
     ['inputs', 'configurations'], 'all indexes and file trees where no two files share a place', 'The tests use one small index.',
     ['index.py', 'organizer_file.py', 'helper.py'],
     [('lookup', 'index.py get_from_index, get_dest_path'), ('building from the index', 'organizer_file.py _pack_index, _pack_index_elem, _pack'),
      ('updating', 'index.py update_index'), ('loading', 'helper.py check_index, update_dict')],
     ['files after unpacking', 'files after building', 'index file'])

prop('C18', 'A failure anywhere ends in an error, and success means the result is there',
     'If any object, file or stage fails while extracting or building, in the main process or in a worker, the command ends with an error whose '
     'message says what failed, and a non-zero exit code; it never reports success with objects missing. A successful build has written the whole '
     'output file.',
     ['fault_sequences', 'schedules', 'inputs'], 'a failure at any object, file or stage, in any order of completion',
     'The tests inject no failures; errors pass through a process pool and several layers of wrapping.',
     ['v8unpack.py', 'helper.py', 'ext_exception.py', 'decoder.py'],
     [('worker results', 'helper.py run_in_pool, run_in_pool_encode_include'), ('wrapping', 'ext_exception.py ExtException'),
      ('command line', 'v8unpack.py main, extract, build, build_all, extract_all')],
     ['exit code and message', 'output file'])

prop('C19', 'Product options change only the field they are meant for',
     'Building with a product version, compatibility mode or name prefix changes exactly the field of the root object (or the prefixed names) that '
     'the option stands for, to exactly the given value, and leaves every other byte of the tree as without the option. An option that is not '
     'given changes nothing.',
     ['configurations', 'inputs'], 'all values of the options for every kind of root object', 'The tests build with at most one option and look at one field.',
     ['MetaObject/Configuration.py', 'MetaObject/ConfigurationExtension.py', 'MetaObject/ExternalDataProcessor.py', 'MetaObject/__init__.py', 'helper.py'],
     [('version and compatibility', 'MetaObject/Configuration.py encode, set_product_version; ConfigurationExtension.py encode'),
      ('options', 'helper.py get_options_param, set_options_param; MetaObject/__init__.py get_options')],
     ['root object tree built with and without the option'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w', encoding='utf-8') as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
