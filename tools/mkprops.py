#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
S = 'src/main/c/'
PARSER, PRINTER, XMQ, TEXT, JSON, IXML, YAEP, CLI = (S+'parts/xmq_parser.c', S+'parts/xmq_printer.c', S+'xmq.c',
    S+'parts/text.c', S+'parts/json.c', S+'parts/ixml.c', S+'parts/yaep.c', S+'xmq-cli.c')

prop('P01', 'Any valid XMQ spelling of a document parses to that document',
 'Every syntactically valid XMQ text, whatever its whitespace, line ends, comments, quoting style, compound values, entities, attributes and namespaces, parses to exactly the document tree that the XMQ language definition gives it. Two spellings of the same document always give the same tree, and nothing is added, dropped, reordered or re-scoped.',
 ['inputs'], 'for every document tree and every valid way of writing it as XMQ',
 'tests/*.test and tests/*.xmq compare a few hundred fixed texts; combinations of quote depth, indentation, comments, entities and nesting are unbounded.',
 [PARSER, XMQ, TEXT], [('recursive descent lexer and parser', PARSER+' parse_xmq_*, eat_xmq_*'), ('DOM construction callbacks', XMQ+' do_*')],
 ['tree handed out after a parse from memory'])
prop('P02', 'Pretty-printed XMQ reads back as the same document',
 'Printing any document as XMQ with the default layout, with any indentation width, and parsing the result gives back a document with the same elements, namespaces, attributes, text, comments, processing instructions and entity references in the same order. This holds for every text content an XML document can hold, including quotes, leading and trailing whitespace, blank lines, tabs and carriage returns.',
 ['inputs', 'configurations'], 'for every document tree and every indentation setting',
 'Tests print a fixed set of documents; whether content needs quotes, how many, or an entity escape depends on the exact content and nesting depth.',
 [PRINTER, PARSER, XMQ, TEXT], [('quote and compound selection', PRINTER+' print_value*, '+XMQ+' count_necessary_quotes'), ('indentation trimming on read', XMQ+' xmq_trim_quote')],
 ['bytes printed to memory, and the tree read back from them'])
prop('P03', 'Compact XMQ is a single line holding the same document',
 'Printing any document as compact XMQ gives one line: it contains no newline, carriage return or tab character, and parsing it gives back the same document as the one printed. Asking for newlines, tabs or non-ASCII characters to be escaped likewise keeps the document unchanged when read back, and the output then contains none of the characters asked to be escaped inside values.',
 ['inputs', 'configurations'], 'for every document tree and every combination of the compact and escape settings',
 'Tests compact a few documents; the escape decision depends on the content of every value, comment and attribute.',
 [PRINTER, XMQ, TEXT], [('compact separators and escapes', PRINTER+' print_quote_lines_and_color_uwhitespace, print_xmq_*')],
 ['bytes printed to memory, and the tree read back from them'])
prop('P04', 'XML converted to XMQ and back keeps every piece of content',
 'A well-formed XML document read without whitespace trimming, printed as XMQ, read again and printed as XML, describes to an independent XML parser the same sequence of elements, qualified names, namespace bindings, attributes, character data, comments and processing instructions as the original. The same holds when the XML is printed directly without passing through XMQ.',
 ['inputs'], 'for every well-formed XML document',
 'Tests convert fixed files; XML content, prefixes and nesting are unbounded.',
 [XMQ, PRINTER, PARSER, S+'parts/xml.c'], [('XML front end', XMQ+' xmq_parse_buffer_xml'), ('XML output', XMQ+' xmq_print_xml'), ('entity and character escapes', XMQ+' xmq_fixup_*')],
 ['event stream an independent XML parser reports for the output'])
prop('P05', 'HTML survives the trip through HTMQ',
 'An HTML document read without trimming, printed as HTMQ and read back as HTMQ gives the same element tree, attributes, text and comments, and printing both trees as HTML gives the same bytes.',
 ['inputs'], 'for every HTML document the HTML reader accepts',
 'A handful of HTML files are converted by the tests.',
 [XMQ, PRINTER, PARSER], [('HTML front end and output', XMQ+' xmq_parse_buffer_html, xmq_print_html')],
 ['trees before and after, bytes of both HTML outputs'])
prop('P06', 'Whitespace trimming on import removes only whitespace',
 'Reading XML or HTML with the default trimming changes nothing but whitespace: elements, attributes, comments and all non-whitespace characters of the text stay the same, in the same order. With trimming off the text is kept character for character, and for XMQ input trimming is off unless asked for.',
 ['inputs', 'configurations'], 'for every XML, HTML or XMQ input and every trim setting',
 'Tests look at a few indented files.',
 [XMQ, TEXT], [('trim heuristics', XMQ+' xmq_trim_text_node, trim_node, xml_trim_whitespace')],
 ['tree handed out with each trim setting'])
prop('P07', 'JSON in, JSON out keeps the value',
 'Every valid JSON text is accepted, and reading it and printing it as JSON, directly, compactly, or after a detour through printed XMQ or XML, gives JSON text denoting the same value: the same objects with the same keys in the same order, arrays, strings, numbers, booleans and nulls.',
 ['inputs'], 'for every valid JSON text',
 'Tests convert a set of fixed JSON files; strings, keys and nesting of empty, singleton and mixed containers are unbounded.',
 [JSON, XMQ, PRINTER], [('JSON reader', JSON+' parse_json*'), ('JSON writer', JSON+' json_print_*'), ('array and object marks', JSON+' trim_index_suffix, A/B/S/_ attributes')],
 ['JSON text printed, decoded by an independent JSON decoder'])
prop('P08', 'Every document prints as valid JSON holding all its text',
 'Printing any XML or XMQ document as JSON always produces text that a strict JSON decoder accepts, in pretty and in compact form. Every attribute value and every piece of element text occurs in the decoded value, and two sibling elements never overwrite each other.',
 ['inputs'], 'for every document tree',
 'Tests convert a few documents to JSON and compare text.',
 [JSON], [('JSON writer', JSON+' json_print_nodes, json_print_element_*')],
 ['JSON text printed, decoded by an independent JSON decoder'])
prop('P09', 'Any string quoted as an XMQ value reads back as that string',
 'For every text, the quoting function returns a one-line XMQ value which, used as the value of an element, reads back as exactly that text. For every text, quoting it in C style and removing the quotes again gives back the text.',
 ['inputs'], 'for every byte string without NUL that is valid UTF-8',
 'testinternals quotes about a dozen strings.',
 [XMQ, PRINTER, TEXT], [('quoting', XMQ+' xmqCompactQuote, xmq_quote_with_*'), ('C quoting', TEXT+' xmq_quote_as_c, xmq_unquote_as_c')],
 ['returned strings'])
prop('P10', 'Indented quotes lose exactly their incidental indentation',
 'The content of a multi-line quote is a function of its text and the column of its opening quote mark alone: indentation shared by all its lines is removed, a leading or trailing line holding only a line end and indentation is dropped as the language rules say, and every other character is kept. Shifting a whole quote to another indentation never changes its content.',
 ['inputs'], 'for every quote content, indentation and starting column',
 'testinternals has some forty fixed quotes.',
 [XMQ, PARSER], [('incidental indentation removal', XMQ+' xmq_trim_quote, xmq_un_quote, copy_and_insert')],
 ['content of the parsed value'])
prop('P11', 'A formatted log line is one line of XMQ that reads back exactly',
 'For every element name, key and value passed to the log line formatter, the line returned contains no line end, is valid XMQ, and reads back as the element with exactly those keys and values in order; nothing in a value can forge another key or another line.',
 ['inputs'], 'for every sequence of keys and values, of any length and content',
 'Tests format a few short lines.',
 [XMQ], [('line formatter', XMQ+' xmqLinePrintf, xmq_line_vprintf_xmq')],
 ['returned line, and the tree read back from it'])
prop('P12', 'Tokens cover the whole input and carry true positions',
 'Tokenizing any valid XMQ text reports tokens which, laid end to end with the whitespace tokens, are exactly the bytes of the input, in order and without overlap. Each token carries the line and column where it starts, and names the kind of thing that the language definition says stands there.',
 ['inputs'], 'for every valid XMQ text',
 'Tests compare the debug token listing of a few files.',
 [PARSER, XMQ], [('token callbacks', PARSER+' DO_CALLBACK*'), ('position counting', S+'parts/xmq_internals.c increment')],
 ['token callback arguments'])
prop('P13', 'Coloured output shows the same text as plain output',
 'Rendering a document or tokenizing a text for a terminal, for HTML or for TeX, with any theme, background and colour setting, and then removing the markup that the format adds, gives the same characters as the plain rendering. Content can never break out of the markup.',
 ['inputs', 'configurations'], 'for every document and every rendering setting',
 'Tests render a few files and compare bytes.',
 [XMQ, PRINTER, S+'parts/colors.c', S+'parts/default_themes.c', TEXT], [('colour and escape tables', S+'parts/colors.c, parts/default_themes.c'), ('escape on output', S+'parts/xmq_internals.c needs_escape, '+PRINTER+' print_utf8*')],
 ['rendered bytes after markup removal'])
prop('P14', 'Invalid XMQ is always rejected with a located error',
 'A text that is not valid XMQ is never accepted: the parse reports failure, a non-zero error number, and a message naming the source and a line and column inside the text. A successful parse reports error number zero and no error message, and the same text always gives the same verdict.',
 ['inputs'], 'for every text that is not valid XMQ',
 'Tests feed a few dozen broken texts.',
 [PARSER, XMQ, S+'parts/xmq_internals.c'], [('error exits', PARSER+' longjmp(state->error_handler'), ('message generation', S+'parts/xmq_internals.c build_state_error_message')],
 ['return value, error number and message'])
prop('P15', 'Reading and printing XMQ or HTMQ from any bytes is memory safe and ends',
 'For any bytes whatsoever given as XMQ or HTMQ text, with any settings, parsing, printing in every format and tokenizing return to the caller in time and memory proportionate to the input without reading or writing outside valid memory, undefined behaviour, aborting or ending the process.',
 ['inputs', 'configurations'], 'for every byte string',
 'The tests run ordinary files without sanitizers.',
 [PARSER, PRINTER, XMQ, TEXT, S+'parts/utf8.c', S+'parts/membuffer.c'], [('bounds tests against the buffer end', PARSER)],
 ['sanitizer reports, exit status and cpu time of the process'])
prop('P16', 'Reading and printing JSON from any bytes is memory safe and ends',
 'For any bytes given as JSON text, parsing and printing in every format return to the caller in time and memory proportionate to the input without reading or writing outside valid memory, undefined behaviour, aborting or ending the process.',
 ['inputs', 'configurations'], 'for every byte string',
 'The tests run ordinary files without sanitizers.',
 [JSON, XMQ], [('JSON reader bounds tests', JSON)], ['sanitizer reports, exit status and cpu time of the process'])
prop('P17', 'Reading and converting XML or HTML from any bytes is memory safe and ends',
 'For any bytes given as XML or HTML, or left to content detection, reading with any trim setting and printing in every format return to the caller in time and memory proportionate to the input without reading or writing outside valid memory, undefined behaviour, aborting or ending the process.',
 ['inputs', 'configurations'], 'for every byte string',
 'The tests run ordinary files without sanitizers.',
 [XMQ, PRINTER, JSON, S+'parts/xml.c'], [('tree rewriting', XMQ+' trim, fixup, merge')], ['sanitizer reports, exit status and cpu time of the process'])
prop('P18', 'Any grammar and any input to the grammar driven parser is handled safely',
 'For any bytes given as an invisible XML grammar and any bytes given as the text to be parsed with it, building the grammar, parsing, printing and freeing return to the caller without memory errors, undefined behaviour, aborting or ending the process, and report failure if no document was made.',
 ['inputs', 'programs'], 'for every grammar text and every input text',
 'The tests run a few dozen well formed grammars.',
 [IXML, YAEP, XMQ], [('grammar reader', IXML), ('Earley parser', YAEP), ('tree extraction', XMQ+' xmqParseBufferWithIXML, generate_dom_from_yaep_node')],
 ['sanitizer reports, exit status of the process, return value'])
prop('P19', 'Everything allocated is released again',
 'After a document, parse state, settings object and returned strings are freed, no memory allocated for them remains, whether the parse, query, print or conversion succeeded or failed. Repeating any operation any number of times does not grow memory, and no file stays open.',
 ['inputs', 'histories', 'fault_sequences'], 'for every operation sequence and every success or failure outcome',
 'Tests never look at memory or descriptors after an operation.',
 [XMQ, PARSER, JSON, IXML, YAEP], [('free functions', XMQ+' xmqFreeDoc, xmqFreeParseState, xmqFreeOutputSettings')],
 ['live allocation count and open descriptors before and after'])
prop('P20', 'How the bytes arrive does not matter',
 'The same bytes give the same verdict, error and document whether they come from a memory range, with or without a terminator after it, from a file, or from standard input in chunks of any size, with or without a UTF-8 byte order mark. Bytes outside the given range are never looked at.',
 ['inputs', 'configurations', 'schedules'], 'for every input and every way and chunking of delivering it',
 'Tests read whole files, or terminated strings.',
 [XMQ, PARSER, JSON], [('loaders', XMQ+' load_file, load_stdin, xmqParseBufferWithType'), ('BOM handling', XMQ+' skip_any_potential_bom')],
 ['tree, verdict and error per delivery'])
prop('P21', 'The format of the input is recognised, and a wrong one refused',
 'Content detection names the format of every well-formed XML, HTML, JSON and XMQ document whatever whitespace or comments come first, so that reading it undeclared gives the same document as reading it with its format declared. Input declared as one format which is detectably another is refused with an error.',
 ['inputs', 'configurations'], 'for every document of each format with every prefix of whitespace',
 'Tests detect a few short strings.',
 [XMQ, JSON], [('detection', XMQ+' xmqDetectContentType, is_json_*')], ['detected format, verdict and tree'])
prop('P22', 'Queries on a document return what the document holds',
 'Fetching a string or a number by path returns the value stored there, converted exactly, or the given fallback if there is none or it is not of that kind; iterating visits each matching node once, in document order, stops when told to, and reports how many it visited.',
 ['inputs', 'histories'], 'for every document, path and sequence of queries',
 'testinternals queries a few fixed documents.',
 [XMQ], [('getters', XMQ+' xmqGetInt, xmqGetLong, xmqGetDouble, xmqGetString, xmqForeach')], ['returned values and visited nodes'])
prop('P23', 'Formatting is stable',
 'Printing a document leaves it unchanged, so that printing it again with the same settings gives the same bytes and printing in one format never alters a later print in another. Formatting XMQ text that was produced by printing gives that same text again.',
 ['inputs', 'histories', 'configurations'], 'for every document and every sequence of print operations',
 'Tests print each document once.',
 [PRINTER, XMQ, JSON], [('printers', PRINTER+', '+JSON)], ['bytes of successive prints, tree before and after'])
prop('P24', 'Document editing commands change exactly what they name',
 'Deleting, selecting, adding, adding a root, replacing and substituting entities, alone and in any sequence of commands on the command line, give the document that these operations define on the tree: all and only the named nodes are affected, in document order, and everything else is left as it was.',
 ['inputs', 'programs', 'histories'], 'for every document and every sequence of editing commands',
 'Tests run single commands on small files.',
 [CLI], [('commands', CLI+' cmd_delete, cmd_select, cmd_add, cmd_add_root, cmd_replace, cmd_substitute')], ['output of the command line tool'])
prop('P25', 'The command line tool reports failure and never loses output silently',
 'The tool exits with zero exactly when every command in the pipeline succeeded and all output was delivered. An unreadable or invalid input, a rejected validation, an unwritable target or a full device gives a non-zero exit and a message on standard error, the message shows the offending text literally, and output for a failed load is never written.',
 ['inputs', 'fault_sequences', 'configurations'], 'for every command line, input and input/output fault',
 'Tests check the output of successful runs; faults are not injected.',
 [CLI, XMQ], [('command loop', CLI+' main, perform_command, cmd_output, cmd_load')], ['exit status, standard output and error, files written'])
prop('P26', 'For-each hands node values to the shell as data only',
 'For every matched node in document order the given shell command is run once with the named values available; whatever characters the values contain, they reach the command as data and are never executed, split or expanded by the tool.',
 ['inputs'], 'for every document content and every command using named values',
 'One test runs echo on plain words.',
 [CLI], [('environment passing', CLI+' invoke_shell, grab_name, grab_content, make_shell_safe_name')], ['arguments seen by the invoked command'])
prop('P27', 'A grammar driven parse accepts exactly the language of its grammar',
 'For every invisible XML grammar and every input text, the parse succeeds if and only if the text is in the language the grammar defines, for all operators: alternatives, groups, options, repetitions with and without separators, literals, encoded characters, ranges, included and excluded character sets and Unicode classes, insertions and empty alternatives, when every rule used is defined. A refused text is reported at its first character that no text of the language can have there. Grammars with a nonterminal that derives itself may be refused, and are then said to have loops.',
 ['programs', 'inputs'], 'for every grammar and every input',
 'Tests parse some dozens of fixed inputs, nearly all accepted ones.',
 [IXML, YAEP, XMQ], [('translation to the Earley parser', IXML), ('Earley recogniser', YAEP)], ['verdict of the parse'])
prop('P28', 'A grammar driven parse builds the tree its marks prescribe',
 'When an input has exactly one parse and the root rule is visible, the document built is the one the grammar defines: one element per visible rule, attributes for attribute marked rules, hidden rules spliced away, deleted text dropped, inserted text added and aliases applied. The characters of the input that are not deleted appear exactly once, in order, in attributes and text.',
 ['programs', 'inputs'], 'for every grammar and every input with a single parse',
 'Tests compare some dozens of fixed results.',
 [IXML, YAEP, XMQ], [('tree extraction', XMQ+' generate_dom_from_yaep_node'), ('marks', IXML)], ['tree built by the parse'])
prop('P29', 'Grammars, documents and parses do not influence one another',
 'A loaded grammar may be used for any number of parses: each gives the same verdict and document as it would with a freshly loaded grammar, whatever inputs, failing ones included, were parsed before. An operation on one document never changes what an operation on another gives, and the same call sequence always gives the same results.',
 ['histories', 'programs'], 'for every history of loads, parses, failures, prints and frees',
 'Each test is one process with one load.',
 [XMQ, IXML, YAEP], [('grammar reuse', XMQ+' xmqParseBufferWithIXML'), ('static state', PARSER+', '+XMQ)], ['results within a history against results of fresh runs'])
prop('P30', 'Independent documents can be used from different threads',
 'Threads that each work on documents of their own, reading, querying, printing, tokenizing and grammar parsing, run without data races and get the same results as when run alone.',
 ['schedules'], 'for every interleaving of threads using separate documents',
 'All tests are single threaded.',
 [XMQ, PARSER, PRINTER, S+'parts/colors.c', YAEP], [('absence of shared mutable state', XMQ)], ['race detector reports, per thread results'])
prop('P31', 'Plain text and content line outputs hold all of the text',
 'Printing a document as plain text gives exactly its character data in document order, with entities decoded. Printing it as content lines gives one line per value, each naming the path to the value followed by the value quoted on that one line, in document order and with nothing left out.',
 ['inputs'], 'for every document tree',
 'Tests print a few documents.',
 [XMQ], [('text output', XMQ+' xmq_print_text'), ('content lines', XMQ+' xmq_print_clines')], ['bytes printed'])
prop('P32', 'Transforming and validating agree with the XSLT and XSD processor',
 'Applying a stylesheet or a schema through the tool, whether the document, stylesheet and schema are written as XML or as XMQ, gives the same result document or verdict as giving the equivalent XML to the underlying XSLT or XSD processor.',
 ['inputs', 'programs'], 'for every document, stylesheet and schema',
 'A few fixed transforms and schemas are tested.',
 [CLI], [('transform', CLI+' cmd_transform'), ('validate', CLI+' cmd_validate')], ['tool output and exit status against the processor called directly'])
prop('P33', 'The supporting containers behave as their abstract types',
 'Every sequence of operations on the string map, the stack, the growing array and the growing byte buffer gives the results of the abstract map, stack, list and byte string, and every Unicode code point encodes to its UTF-8 form and decodes back, while no malformed byte sequence decodes.',
 ['histories', 'inputs'], 'for every operation sequence, key and code point',
 'parts/testinternals does a few operations on each.',
 [S+'parts/hashmap.c', S+'parts/stack.c', S+'parts/vector.c', S+'parts/membuffer.c', S+'parts/utf8.c'], [('containers', S+'parts/')], ['results of each operation against a model'])
prop('P34', 'Ambiguous input gives a valid parse, and all parses only when asked',
 'When an input has several parses under a grammar the result is always one of them, the same one every time, and it is marked as ambiguous; when all parses are asked for, exactly the true parses of the whole input are reported, each of them once. Input with one parse is never marked ambiguous.',
 ['programs', 'inputs'], 'for every ambiguous grammar and input',
 'Tests look at two or three ambiguous grammars.',
 [XMQ, YAEP, IXML], [('ambiguity handling', XMQ+' generate_dom_from_yaep_node, collapse'), ('abstract tree sharing', YAEP)], ['tree built by the parse'])
prop('P35', 'Document statistics and tree shape reports are exact',
 'The statistics command reports the true number and byte size of elements, attributes, text nodes, comments, entities and sections of the document it is given.',
 ['inputs'], 'for every document', 'One test checks one file.', [CLI], [('statistics', CLI+' cmd_statistics, accumulate_*')], ['numbers printed'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
