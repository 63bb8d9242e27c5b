#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts are reviewable)."""
import json, os
S='sml/src/'
ALLP=[S+f for f in ('sml_shared.c','sml_number.c','sml_octet_string.c','sml_boolean.c','sml_status.c','sml_value.c','sml_time.c','sml_list.c','sml_tree.c','sml_message.c','sml_file.c','sml_open_request.c','sml_open_response.c','sml_close_request.c','sml_close_response.c','sml_get_list_request.c','sml_get_list_response.c','sml_get_proc_parameter_request.c','sml_get_proc_parameter_response.c','sml_set_proc_parameter_request.c','sml_get_profile_pack_request.c','sml_get_profile_pack_response.c','sml_get_profile_list_request.c','sml_get_profile_list_response.c','sml_attention_response.c')]
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech])))

p('C01','Parsing never reads outside the bytes it was given',
 'For every byte sequence handed to any parse function of the library (including sml_file_parse), no byte outside the given buffer is ever read, no byte outside the memory the parser allocated is ever written, and the read position never moves past the end of the buffer. This holds at every truncation point, for every length and count field, including multi-byte ones.',
 ['inputs'],'all byte strings, all truncation points, all type-length encodings, every public parse function',
 'The unit tests parse about sixty fixed hex strings; out-of-bounds reads of one byte do not change any asserted value and most length/truncation combinations are never tried.',
 ALLP,[('cursor/length checks before every access','sml/src/sml_shared.c, sml_number.c, sml_octet_string.c, sml_boolean.c, sml_list.c'),('remaining-bytes check before the checksum','sml_message_parse')],
 [('cursor','current read position, at most buffer_len','sml_buffer')])
p('C02','Every allocation is released exactly once on every path',
 'Whatever the input, every parse, write, init, add and free function of the library leaves no heap block that nobody owns, releases no block twice and never uses a released block: a parse that fails releases all it had built, a parse that succeeds hands all of it to the returned object, and the matching free function releases the whole object whatever optional parts are present. A free function accepts NULL and every object a parse or init function can produce.',
 ['inputs'],'all inputs and all rejection points of all parse functions; all objects for free and write functions',
 'Unit tests check returned values only, not ownership; the number of combinations of optional fields and rejection points is exponential and leaks are invisible to assertions.',
 ALLP,[('goto error paths and *_free functions','all of sml/src')])
p('C03','No NULL or uninitialised value is ever used',
 'No parse, free, init or write function of the library dereferences NULL, and none uses a value of memory it never initialised, whichever optional fields the input leaves out (for parsing) or the object has unset (for the optional fields of write and free).',
 ['inputs'],'all inputs, every subset of skipped optional fields',
 'Every optional field doubles the cases; tests exercise a handful of all-present or single-skip inputs, and reads of uninitialised memory often give the expected value by luck.',
 ALLP,[('optional-skipped handling and NULL guards','sml_buf_optional_is_skipped, *_free, *_write')])
p('C04','Malformed input is always reported through the error flag',
 'A parse function that rejects its input (returns NULL although the field was not marked as skipped) has set the error flag of the buffer, with exactly one exception: a complete message that fails its checksum is dropped without an error. No parse function ever clears an error flag that is set, or returns normally on an element it could not decode.',
 ['inputs'],'all inputs and every rejection point of every parse function',
 'Tests look at a few malformed inputs per function; a rejection that forgets the flag makes the caller continue in the middle of an element.',
 ALLP,[('buf->error = 1 before every error exit','all parse functions'),('sml_buf_has_errors after every nested parse','all parse functions')],
 [('error','sticky parse error flag','sml_buffer')])
p('C05','A successful parse consumes exactly one complete element',
 'When a parse function reports success, the read position has advanced over exactly one complete element: the one-byte skip marker (result NULL), or the type-length field and all the bytes or sub-elements that it announces, no more and no less. In particular a list is accepted only after exactly as many elements as its count were read. A message includes the zero byte that ends it, and an optional field marked as skipped is never rejected.',
 ['inputs'],'all inputs, all type-length encodings, all list counts',
 'Tests check the read position for a few inputs only; an element that leaves bytes behind desynchronises everything after it.',
 ALLP,[('fixed element counts and element loops','all *_parse functions'),('number/octet string length handling','sml_number_parse, sml_octet_string_parse')])
p('C06','Parsing always terminates, with work bounded by the input',
 'For every input, every loop of the parsing code either consumes at least one input byte per round or is bounded by a constant, by a quantity already validated against the input, or by the size of the object at hand; no announced count or length can make the library loop or allocate more than in proportion to the bytes actually received.',
 ['inputs'],'all inputs including ones announcing counts up to 2^31',
 'Non-termination and blow-up need specific lengths or counts; tests use small well-formed ones.',
 [S+'sml_shared.c',S+'sml_list.c',S+'sml_tree.c',S+'sml_file.c',S+'sml_value.c',S+'sml_status.c',S+'sml_get_profile_pack_request.c',S+'sml_octet_string.c'],
 [('error check inside every element loop','sml_sequence_parse, sml_list_parse, sml_tree_parse, sml_tree_path_parse, sml_get_profile_pack_request_parse'),('cursor advance per round','sml_file_parse, sml_buf_get_next_length')])
p('C07','Only messages with a valid checksum are delivered',
 'A message parse returns a message only if the checksum it carries equals the CRC-16/X.25 or the CRC-16/Kermit checksum of exactly the bytes from the first byte of the message up to the byte before the checksum field. If neither matches, or the checksum is missing, no message is returned.',
 ['inputs'],'all messages, all corruptions',
 'Tests have one message with a right and few with a wrong checksum; an error in range or logic that accepts a class of corruptions passes them.',
 [S+'sml_message.c'],[('checksum comparison','sml_message_parse')])
p('C08','A file parse delivers all good messages in order and drops only bad ones',
 'Parsing a file lists exactly the messages it accepted, in their order in the input, skips zero fill bytes between messages, goes on after a message dropped for its checksum, and stops at the first structural error keeping the messages before it. It always returns a file object that sml_file_free can release.',
 ['inputs'],'all byte strings, any number and order of good, bad and truncated messages',
 'Tests cover files with a few messages; the relation between dropping, stopping and order holds over all sequences.',
 [S+'sml_file.c',S+'sml_message.c'],[('message loop','sml_file_parse'),('append','sml_file_add_message')])
p('C09','Parse, write and free agree on the type behind every tag',
 'For each message tag and each tagged value, the parse, write and free functions treat the tagged data as the same type; the tags are those of the SML specification, and data of an unknown tag is never interpreted as some known type. What one of them handles, the others handle too.',
 ['inputs'],'all 14 message tags, 4 process-parameter tags, all value type codes, and all unknown ones',
 'Tests parse only some of the tags and free or write even fewer of them.',
 [S+'sml_message.c',S+'sml_tree.c',S+'sml_value.c',S+'sml_status.c'],[('tag switches','sml_message_body_parse/write/free, sml_proc_par_value_parse/write/free, sml_value_parse/write/free')])
p('C10','Every parsed field is the right element of the wire format',
 'Each parse function of a structured type accepts exactly a list with the number of elements that the SML specification gives the type, decodes each element with the type the specification gives it, and stores the i-th element in the i-th field, so that no field is skipped, swapped, repeated or decoded with another width or signedness. An element of that layout is not rejected.',
 ['inputs'],'all structured types (messages, message bodies, list entries, trees, tuple and period entries, times) and all inputs',
 'Tests check some fields of some types with inputs in which swapped fields of equal type are often both absent.',
 ALLP,[('ordered field parsing','all structured *_parse functions')])
p('C11','Every object is written as exactly one element of the wire format',
 'Each write function of a structured type emits a list header with the specified number of elements followed by exactly these elements, in the order and with the types in which the parse function reads them, and emits the skip marker for an absent optional element; lists and sequences emit a header with as many elements as follow it, all of them, each once and in order.',
 ['inputs'],'all objects: every subset of absent optional fields, all list lengths',
 'Tests write a handful of objects; order, count and coverage errors with other field subsets or list lengths go unseen.',
 ALLP,[('ordered field writing','all *_write functions')])
p('C12','Writing never goes outside the output buffer',
 'For every object, however many messages, list entries or bytes it has, no write function (nor sml_transport_write) stores or reads a byte outside the output buffer: the buffer is grown first when the data does not fit.',
 ['inputs'],'all objects, all buffer sizes, all write positions',
 'Tests write objects far smaller than the 512-byte default buffer.',
 [S+'sml_shared.c',S+'sml_number.c',S+'sml_octet_string.c',S+'sml_boolean.c',S+'sml_message.c',S+'sml_transport.c',S+'sml_file.c'],[('space check before each store','primitive write functions and sml_transport_write')])
p('C13','Type-length fields are encoded and decoded exactly',
 'Decoding a type-length field yields the announced length for every number of bytes it may have (payload length without the header bytes for simple types, element count for lists) or reports an error; encoding one produces, for every type and length, the shortest field that decodes to that type and length, whatever the output buffer contained before.',
 ['inputs'],'all lengths and types, all numbers of header bytes, any previous buffer content',
 'Only lengths below 16 and one or two longer ones are tested; the carry cases between header sizes are rare.',
 [S+'sml_shared.c'],[('nibble loops','sml_buf_get_next_length, sml_buf_set_type_and_length')])
p('C14','Integers, booleans and octet strings keep their value when parsed and written',
 'Parsing an integer of 1 to 8 bytes into any wider or equal field gives the big-endian value of its bytes, sign-extended for signed and zero-extended for unsigned types; writing gives the big-endian bytes of the value at the full width of its type. Integers that do not fit the field are rejected, never truncated. A boolean is false exactly for the byte 0, and is written as a single byte that reads back as the same truth value; an octet string holds exactly the announced bytes and is written with exactly its bytes. Values that fit and whose bytes are all there (for an octet string, with at least one byte behind it) are accepted.',
 ['inputs'],'all field sizes, all encoded sizes, all byte values',
 'Tests use a few values per size; extension and byte order errors depend on size pairs and sign bits.',
 [S+'sml_number.c',S+'sml_value.c',S+'sml_status.c',S+'sml_boolean.c',S+'sml_octet_string.c'],[('byte placement, sign fill and byte swap','sml_number_parse, sml_number_write, sml_number_init')])
p('C15','The checksum functions compute CRC-16/X.25 and CRC-16/Kermit',
 'For every byte string of every length, sml_crc16_calculate returns the CRC-16/X.25 checksum with its two bytes swapped (the order used on the wire) and sml_crc16kermit_calculate the CRC-16/Kermit checksum, reading exactly the given bytes.',
 ['inputs'],'all byte strings of all lengths',
 'A wrong entry among the 256 of the table affects only some inputs; tests check a few messages.',
 [S+'sml_crc16.c'],[('lookup table and update step','sml_crc16_calculate, sml_crc16kermit_calculate')])
p('C16','The transport reader returns complete frames only and finds every start',
 'Whatever bytes precede it, sml_transport_read recognises the first complete start sequence (four escape bytes followed by four version bytes) in the stream, and returns a positive count only for a frame that begins with the start sequence, continues with everything received after it without loss, and ends with the first end sequence including its padding and checksum bytes. It returns 0 only when the input ends or fails, when another escape sequence takes the place of the end sequence, or when the frame does not fit; it never reads or writes outside its own or the caller\'s buffer, however long the frame. sml_transport_listen passes each frame, in order and exactly once, to the receiver until a read returns 0.',
 ['inputs','histories'],'all byte streams, all buffer sizes',
 'No test reads from a file descriptor at all; resynchronisation depends on the bytes before the start sequence.',
 [S+'sml_transport.c'],[('start sequence search and frame loop','sml_transport_read'),('frame delivery','sml_transport_listen')])
p('C17','A transmitted file is wrapped in a correct transport envelope',
 'sml_transport_write sends, in a single write, the start sequence, the encoded messages, the fewest zero bytes that make the length a multiple of four, the end sequence, the number of fill bytes and the CRC-16/X.25 of all bytes before it, high wire byte first; it returns the number of bytes sent only if all were sent and 0 otherwise.',
 ['inputs'],'all files and all payload lengths modulo four, all outcomes of write()',
 'sml_transport_write has no test.',
 [S+'sml_transport.c'],[('envelope construction','sml_transport_write')])
p('C18','Reading from the device is exact and survives interruptions',
 'sml_transport_read obtains its bytes through a reader that returns success only after exactly the requested number of bytes has been stored contiguously, retries when the read is interrupted or would block, and reports end of file or any other error as failure; it never asks for more bytes than still fit. Every wait for input is a wait for the descriptor that is then read.',
 ['fault_sequences','schedules'],'all sequences of short reads, EINTR, EAGAIN, EOF and errors',
 'No test simulates a descriptor.',
 [S+'sml_transport.c'],[('read loop','sml_read')])
p('C19','The library keeps no state between calls',
 'No library function modifies any global or static object or stores a pointer to caller memory in one, so calls on different objects are independent and can run in different threads, and the result of a call depends on its arguments only.',
 ['schedules','histories'],'all histories and interleavings of calls on different objects',
 'Tests run single-threaded and each call once.',
 ALLP+[S+'sml_crc16.c',S+'sml_transport.c'],[('no mutable static data','all of sml/src')])
p('C20','Input passed by the caller is neither modified nor kept',
 'No parse, comparison, checksum or init function modifies the bytes it is given to read, and no object it returns refers to them: all content is copied, so the caller may reuse or free the input right after the call.',
 ['inputs'],'all inputs and all functions taking input bytes',
 'Tests keep their input alive and never compare it afterwards.',
 [S+'sml_file.c',S+'sml_octet_string.c',S+'sml_number.c',S+'sml_crc16.c',S+'sml_shared.c'],[('copying constructors','sml_file_parse, sml_octet_string_init, sml_number_parse')])
p('C21','The library never ends the process and leaves stdout to the application',
 'No input makes a library function terminate or signal the process, and no library function writes to standard output except sml_file_print and sml_hexdump; diagnostics go to standard error only.',
 ['inputs'],'all library functions, all paths',
 'Error branches are mostly untested and output is not checked.',
 ALLP+[S+'sml_crc16.c',S+'sml_transport.c'],[('fprintf(stderr, ...) diagnostics','all of sml/src')])
p('C22','Meter workarounds change only the values they are meant for',
 'The DZG DVS74 workaround changes a parsed value in only one way: it re-marks an integer power reading of OBIS code 1-0:16.7.0*255 with an encoding of one to three bytes as unsigned, and only after the same list carried a DZG serial number in one of the documented ranges; every other value keeps its parsed type and content. The Holley and FROETEC time workarounds apply only to their documented encodings: a bare 4-byte unsigned time is taken as a second index, and a timestamp given as list is accepted only with its three integers, which are skipped.',
 ['inputs','histories'],'all lists with any order and content of entries',
 'Tests replay one recorded telegram; other types, lengths or entry orders under the same OBIS code are not tried.',
 [S+'sml_list.c',S+'sml_time.c'],[('workaround conditions','sml_list_parse / sml_list_entry_parse, sml_time_parse')])
p('C23','Value, hex and string helpers are exact for every content',
 'sml_value_to_double converts each of the eight integer types from a field of exactly its width and signedness; sml_value_to_strhex, sml_octet_string_init_from_hex and the two octet string comparisons stay within their strings for every content and length, give each byte its two hex digits in order, treat upper and lower case alike, and report equality exactly for equal length and content.',
 ['inputs'],'all values, all string lengths and contents including empty and odd-length hex',
 'Tests use a few strings; terminator, sizing and odd-length cases are memory errors that pass silently.',
 [S+'sml_value.c',S+'sml_octet_string.c'],[('conversion helpers','sml_value_to_double, sml_value_to_strhex, sml_octet_string_init_from_hex, sml_octet_string_cmp, sml_octet_string_cmp_with_hex')])
p('C24','Hostile input cannot exhaust the stack',
 'The stack a parse, write or free of parsed data uses is bounded independently of the input: nesting in the input is followed only to a fixed depth, beyond which the parse reports an error, and no stack buffer is sized by unchecked input.',
 ['inputs'],'all nesting depths and announced sizes',
 'Deep nesting does not occur in the tests.',
 [S+'sml_tree.c',S+'sml_number.c',S+'sml_message.c'],[('depth limit','sml_tree_parse'),('variable-length arrays','sml_number.c')])
p('C25','Adding to a container keeps everything already in it',
 'Adding an element to a file, sequence, tree, or tree path makes it the last element, keeps all earlier elements in place and order, increases the count by exactly one and grows the storage to hold all of them; sml_list_add links exactly the given entry. This holds for any number of elements.',
 ['histories','inputs'],'all histories of additions of any length',
 'Tests add at most two or three elements.',
 [S+'sml_file.c',S+'sml_list.c',S+'sml_tree.c'],[('realloc-based append','sml_file_add_message, sml_sequence_add, sml_tree_add_tree, sml_tree_path_add_path_entry')])
p('C26','The example server survives every frame and prints only valid data',
 'For every frame the transport layer can deliver, the receiver of sml_server neither crashes nor reads invalid memory nor leaks: object names, values, units and strings that are absent, empty or of unexpected type are skipped or printed safely, and all memory is released.',
 ['inputs'],'all frames, all combinations of absent fields and value types',
 'The example has no tests.',
 ['examples/sml_server.c','examples/unit.h'],[('receiver callback','transport_receiver')])
p('C27','New messages carry a full 16-byte transaction id and leak nothing',
 'A message made by sml_message_init has a transaction id of exactly 16 initialised bytes; in the build without libuuid it is a version-4, variant-1 UUID read from the system random source, the source is closed again on every path, and a failing source is handled without using uninitialised bytes.',
 ['configurations','fault_sequences'],'both build configurations, all outcomes of open() and read()',
 'The tests build only one configuration, with a random source that never fails.',
 [S+'sml_octet_string.c',S+'sml_message.c'],[('uuid generation','sml_octet_string_generate_uuid')])
p('C28','The public API is complete, self-contained and stable',
 'Every public header compiles on its own as C99 and as C++; every function a header declares is defined with exactly that signature and every symbol in the list of exported symbols is still exported; this holds with and without SML_NO_UUID_LIB, in which case nothing of libuuid is referenced.',
 ['configurations','programs'],'all headers, all declared functions, both configurations, C and C++ clients',
 'The tests include the headers in one order, as C, in one configuration.',
 ['sml/include/sml/',S,'debian/libsml1.symbols'],[('headers and symbol list','sml/include/sml, debian/libsml1.symbols')])
p('C29','Freshly initialised objects are empty and valid',
 'Every init function without content arguments returns a new object with every field initialised to empty (absent, zero length, the documented default type), and every init function with arguments stores exactly these; the result can be freed, filled and written right away.',
 ['inputs'],'all init functions, all fields',
 'Tests check a few fields of a few types; a forgotten field is uninitialised memory that often happens to be zero.',
 ALLP,[('compound literal initialisation','all *_init functions')])
p('C30','Parsing a written file gives back equal values',
 'For every file of messages whose required fields are present, whose octet strings are absent or not empty, whose values have content, whose lists and trees are absent or not empty and whose trees are at most 64 deep, parsing the written bytes yields a file with the same messages in the same order, every field absent or of equal value and type (booleans by truth value); the documented corrections of individual meters (C22) excepted.',
 ['inputs'],'all file objects',
 'Tests cover a few objects; equality quantifies over all contents.',
 ALLP,[('paired parse and write functions','sml/src')])
p('C31','Generated transaction ids are unique',
 'Two messages created by any processes at any time have different transaction ids, up to the collision probability of random UUIDs.',
 ['histories'],'all histories of message creation',
 'Uniqueness is a statistical property over all histories.',
 [S+'sml_octet_string.c'],[('uuid generation','sml_octet_string_generate_uuid')])
p('C32','The example server prints the exact numeric reading',
 'For every integer reading and scaler, the number sml_server prints equals value times ten to the power of the scaler, with -scaler decimals.',
 ['inputs'],'all values and scalers',
 'No test runs the example.',
 ['examples/sml_server.c'],[('value scaling','transport_receiver')])
p('C33','The receiver delivers frames without unbounded delay',
 'sml_transport_listen hands each complete frame to the receiver callback as soon as its last byte has arrived and never blocks while data is available.',
 ['schedules'],'all arrival schedules',
 'No test uses a descriptor; timing is not observable in the unit tests.',
 [S+'sml_transport.c'],[('select/read loop','sml_read, sml_transport_listen')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
