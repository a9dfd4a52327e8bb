"""The property table: properties.jsonl and MANIFEST.json are generated from it (tools/gen.py)."""
PROPS = []
NA = []


def P(id, title, st, over, q, why, files, mech, tech, note):
    PROPS.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, tech=tech, note=note))


def N(id, title, st, over, q, why, files, mech, reason):
    NA.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, reason=reason))


TRUST = ' Trusts clang 18\'s translation to LLVM IR, the IR normaliser in engine/ and the checker in sa/.'

P('C01', 'Opening a document succeeds only after it was completely validated',
  'Opening a binary document for reading reports success, and makes its root element available, only if the file was opened and mapped, is long enough for a node header, starts with the meta root, both symbol tables were found, checked and loaded from it, and every node of the tree was checked against those tables. If any of these steps fails, opening reports failure and no root element is available. Nothing is read through a node before that node was checked.',
  ['inputs', 'fault_sequences'], 'every file content (including arbitrary corrupted bytes) and every failing system call during open',
  'The tests open a handful of well-formed documents; the property quantifies over all malformed ones and all failures, of which the tests sample none.',
  ['src/bin_xml.cpp'], [('XB_reader::Initialize', 'src/bin_xml.cpp'), ('XML_Item::Check', 'src/bin_xml.cpp'), ('_XB_symbol_table::Load', 'src/bin_xml.cpp')],
  'abstract interpretation of the open routine with the validators on complete documents with one defect or one failing step',
  'Each element and table of four document shapes gets each kind of defect, each step fails once; system calls are contracts. Several defects at once are not enumerated.' + TRUST)

P('C02', 'Validation rejects every node or symbol table reaching outside the file',
  'A document is accepted only if, for every node of the tree, the attribute table, the child reference table and every out-of-line attribute value and the element\'s own value (with length prefix and string terminator) lie inside both the mapped file and the node\'s own extent, the header of every child lies inside the mapped file, all counts are non-negative and every tag and attribute name is an entry of the loaded symbol tables. A symbol table is accepted only if its reference array, type array and every terminated name lie inside the table\'s own data. The validation itself ends, also for references that make a cycle, never reads a byte outside the mapped file, and accepts every valid element.',
  ['inputs'], 'every file content of any length',
  'Bounds must hold for all values of all counts, offsets and lengths in the file; the tests contain only well-formed files.',
  ['src/bin_xml.cpp'], [('XML_Item::Check', 'src/bin_xml.cpp'), ('_XB_symbol_table::Load', 'src/bin_xml.cpp')],
  'abstract interpretation of the validators on elements and tables deviating at every boundary, against an independent specification',
  'All header fields, all 256 types, every boundary of every extent, child reference and symbol; sizes up to and beyond 4 GB are represented. Combinations of several deviations are not enumerated.' + TRUST)

P('C03', 'Lookups on a missing element yield nothing instead of crashing',
  'Every read accessor of an element or attribute handle accepts the missing handle that an unsuccessful lookup returns: it answers "nothing" (no handle, no text, length 0, the integer null value) and touches no memory. Indexes outside the children or attributes of an element also answer "nothing", and a record appended behind the document is handed out only after it was validated. Operations that create, link or set something answer nothing and change nothing for a missing element of a writable document, so chained calls never fail harder than by answering nothing.',
  ['inputs', 'programs'], 'every chain of lookups in any client program on any document',
  'Tests call accessors on elements that exist; the property is about every accessor on every absent element and every out of range index.',
  ['src/bin_xml.cpp', 'include/binary_xml/bin_xml.h', 'src/bin_write_plugin.cpp'], [('THIS_IS_NULL guards', 'include/binary_xml/macros.h'), ('index guards', 'src/bin_xml.cpp')],
  'abstract interpretation of every accessor with a missing handle, far indexes, absent names and invalid appended records',
  'All paths of every accessor under a null handle with unknown other arguments; indexes at the boundaries and where products wrap.' + TRUST)

P('C04', 'Reading a document never modifies it',
  'Opening, navigating, validating and printing a binary document never changes the document file: it is opened read-only, mapped without write permission, and no reading operation stores through an element, attribute or symbol handle. The same holds for values handed to the caller: conversion buffers are separate from the mapped document.',
  ['inputs', 'programs', 'histories'], 'all documents and all sequences of reading operations',
  'A test would have to observe the absence of writes on every path; existing tests only compare printed output.',
  ['src/bin_xml.cpp', 'src/bin_xml_types.cpp', 'src/bin_xml_plugin.cpp'], [('O_RDONLY / PROT_READ', 'src/bin_xml.cpp')],
  'interprocedural effect (mod) analysis and call-argument constants',
  'All functions reachable from the reading API in the resolved call graph; std::ostream internals are trusted.' + TRUST)

P('C05', 'All value type tables agree with each other',
  'For every value type, stored size, alignment, size computed from text, stored-inline or out-of-line decision, type name and the extent reported for a value by the reader agree with one another. Types stored inline are exactly four bytes wide, 8 byte numeric types are 8-aligned wherever they are written or read, variable sized types carry their length prefix everywhere, and the name table has one correct entry per type.',
  ['inputs', 'configurations'], 'all value types in all combinations of writer and reader',
  'Tests exercise the few types that the sample documents contain, and only in one writer; agreement is needed between all tables for all 25 types.',
  ['src/bin_xml_types.cpp', 'include/binary_xml/bin_xml_types.h', 'src/bin_xml.cpp', 'src/bin_xml_creator.cpp', 'src/bin_write_plugin.cpp'],
  [('XBT_Size2', 'src/bin_xml_types.cpp'), ('XBT_Align', 'src/bin_xml_types.cpp'), ('XBT_IS_4/XBT_IS_8/XBT_FIXEDSIZE', 'include/binary_xml/bin_xml_types.h')],
  'table extraction by conditional constant propagation per type and cross comparison',
  'Complete for the finite set of types: each table function is folded to a constant for each type from its IR.' + TRUST)

P('C06', 'Text to binary and binary to text conversions of each type are paired',
  'For every value type that text can be converted to, the conversion stores at the alignment of the type, stores exactly the bytes of the type, advances the write position by exactly the stored size and reports success only then; printing reads exactly those bytes from the same place. Decimal types use the same scale in both directions and print their sign and zero padding; a type without a conversion is reported as failure and never silently accepted.',
  ['inputs'], 'every type and every start alignment of the write position',
  'Tests convert eight sample values at one buffer alignment; a wrong alignment, width or scale of another type or position shows only for specific neighbours.',
  ['src/bin_xml_types.cpp', 'src/utils.cpp'], [('XBT_FromString', 'src/bin_xml_types.cpp'), ('XBT_ToStringChunk', 'src/bin_xml_types.cpp'), ('XBT_Copy', 'src/bin_xml_types.cpp')],
  'partial evaluation (constant propagation) of both codecs per type and alignment residue',
  'Complete over types and residues modulo 16 for addresses, widths, advances and scales; the digits themselves (atoi, strtoul, snprintf) are trusted.' + TRUST)

P('C07', 'Combining detected value types does not depend on their order',
  'When the values of an attribute or element are of different detected types, the type chosen for the column does not depend on the order in which values were seen: combining types is commutative and associative, the combined type is at least as wide as both (every value of both can be represented), text and variant absorb everything and an empty value changes nothing.',
  ['inputs', 'histories'], 'all pairs and triples of value types',
  'The tests see a few columns of mixed values in one order only; there are 24^3 combinations.',
  ['src/bin_xml_types.cpp'], [('XBT_JoinTypes', 'src/bin_xml_types.cpp'), ('XBT_Detect2', 'src/bin_xml_types.cpp')],
  'exhaustive algebraic check of the join table extracted by constant propagation',
  'Complete for all triples: the table is computed from the IR of the join function for every pair of types.' + TRUST)

P('C09', 'A failed step is never reported as success',
  'When a system call (open, create, map, stat, read, write, close of written output, truncate), a memory or pool allocation, a parse, a value conversion or a registration step fails, or transfers fewer bytes than requested, the library operation that needed it does not report success: it answers false, null, a negative value or nothing, or ends the program with a message. No result of such a step is dropped on any path.',
  ['inputs', 'fault_sequences'], 'every failing call at every call site of the library and every path behind it',
  'Tests run on a healthy filesystem with enough space; the failing branches are never executed by them.',
  ['src/bin_xml_creator.cpp', 'src/bin_write_plugin.cpp', 'src/bin_xml.cpp', 'src/utils.cpp', 'src/files.cpp', 'src/missings.cpp', 'src/bin_json_plugin.cpp', 'src/bin_xml_plugin.cpp'],
  [('Make_xb', 'src/bin_xml_creator.cpp'), ('new_element', 'src/bin_write_plugin.cpp'), ('Initialize', 'src/bin_write_plugin.cpp')],
  'path exploration of the control flow with the failure value propagated (typestate of the call result)',
  'All call sites of the listed fallible calls in functions with a result; void callbacks of the serialiser are only counted. Failures of munmap and of closing read-only descriptors are exempt (nothing is lost).' + TRUST)

P('C10', 'Every acquired handle, mapping and memory block is released exactly once',
  'Every file descriptor, directory handle, file stream, mapping and heap block that the library acquires is, on every path and also when a later step fails, released by the matching call, handed to the caller, or kept by an object that releases it when it is destroyed or finalized. Nothing is used or released again after its release, a released member never keeps the stale value, and memory is always released by the counterpart of its allocator.',
  ['inputs', 'fault_sequences', 'histories'], 'every acquisition site and every path behind it, including all failing branches',
  'Leaks and double releases on error paths do not change any output; tests neither take the error paths nor watch handles.',
  ['src/bin_xml_creator.cpp', 'src/bin_write_plugin.cpp', 'src/bin_xml.cpp', 'src/utils.cpp', 'src/files.cpp', 'src/missings.cpp', 'src/bin_json_plugin.cpp', 'src/bin_xml_packer.cpp', 'src/bin_xml_types.cpp'],
  [('BW_plugin::Finalize', 'src/bin_write_plugin.cpp'), ('~Bin_xml_creator', 'src/bin_xml_creator.cpp'), ('ReadFile', 'src/utils.cpp')],
  'typestate and ownership analysis over all paths behind each acquisition; class-level matching of kept resources with destructors',
  'All acquisition sites. An Initialize that fails or is repeated relies on the owner being destroyed; objects handed to other objects are trusted there.' + TRUST)

P('C27', 'Comparing typed values orders them by value',
  'Comparing two values of the same type answers negative, zero or positive exactly as the first value is less than, equal to or greater than the second one, at the width and signedness of the type; byte and text types compare all their bytes. Values of a wrong size and values of types that cannot be compared are never equal, and text equals a typed value only if it converts to it. A search by attribute value answers the first child that carries such a value.',
  ['inputs'], 'all pairs of values of all pairs of types',
  'Key searches in tests compare a few small positive numbers; negative values, values above 2^31, differences that overflow and mixed types never occur.',
  ['src/bin_xml_types.cpp', 'src/bin_write_plugin.cpp'], [('XBT_Compare', 'src/bin_xml_types.cpp'), ('XBT_Equal', 'src/bin_xml_types.cpp'), ('findChildByParam', 'src/bin_write_plugin.cpp')],
  'abstract interpretation per type over boundary values, unknown values under each outcome, and sibling lists',
  'Complete over types, pairs of types and outcomes of the value comparison; not a number values of floating types are outside.' + TRUST)

P('C25', 'Merging duplicate subtrees keeps the meaning of the document',
  'When a document is packed, a subtree is replaced by a reference only if its complete content has the same complete hash as the referenced earlier subtree, and the reference always leads to the first copy. Every other node is copied completely, keeps its address modulo eight so that aligned values stay where readers look for them, has all its children relinked relative to its new address and its length updated.',
  ['inputs'], 'all documents with repeated subtrees at all positions',
  'The sample documents repeat a few elements; wrong merging needs particular collisions, orders of copies, or parities of addresses.',
  ['src/bin_xml_packer.cpp'], [('MarkReferences', 'src/bin_xml_packer.cpp'), ('PackNode', 'src/bin_xml_packer.cpp'), ('_SortingNodes::compare', 'src/bin_xml_packer.cpp')],
  'linear term relations of the marking pass; partial evaluation of the copying pass per address residue',
  'All stores, calls and results of the two passes. The sort routine, the hash function and the absence of collisions are trusted.' + TRUST)

P('C08', 'Printed documents are well formed XML with the same content',
  'Writing a document to an output stream, from a binary file or from any source, produces well formed XML which an XML parser reads back as the same elements in the same order, with the same attributes and the same values. Markup characters and white space that a parser would change are replaced by references; values of every length and type are printed completely, and elements without a value are printed without one. The plain listing of a source names the same elements, attributes and values.',
  ['inputs', 'programs'], 'all values of all lengths in all documents, every shape of the element tree',
  'The test documents contain no markup characters in values, and their text fits one chunk; printed output of sources is not checked at all.',
  ['src/bin_xml.cpp', 'src/bin_xml_creator.cpp', 'src/bin_xml_types.cpp'], [('XML_Item::write', 'src/bin_xml.cpp'), ('s_On2Stream', 'src/bin_xml_creator.cpp'), ('XBT_ToXMLStream', 'src/bin_xml_types.cpp')],
  'abstract interpretation of the printing functions on laid out documents and modelled sources; the printed text is parsed and compared',
  'Representative documents (all characters, all types, chunk boundaries, shapes of the tree, appended elements). The listing does not escape and is judged on texts without markup; control characters cannot be XML; indentation is not judged.' + TRUST)

P('C14', 'Typed writing stores values at their width and alignment',
  'Every typed operation that creates an element or attribute in a writable document, or sets its value, stores exactly the given value at the width, alignment and type declared for the name, refuses a name declared with another type, and answers the element that really holds the value. Nothing is written outside the block that was allocated for the element. When growing the document or creating the element fails, the operation answers null, and null texts or blocks never crash it.',
  ['inputs', 'fault_sequences', 'programs'], 'every typed writing operation, every declared type, every failing allocation and every value',
  'Tests write a few values of a few types into a fresh document with enough space; mismatching declarations, growth and failure in the middle are never reached.',
  ['src/bin_write_plugin.cpp'], [('BW_plugin::new_element', 'src/bin_write_plugin.cpp'), ('tagStr/tagInt32/tagTime/tagData', 'src/bin_write_plugin.cpp'), ('BW_element::attr*', 'src/bin_write_plugin.cpp')],
  'abstract interpretation with trace partitioning of every typed method over declared type and allocation outcome; stores compared with the layout of the type',
  'All typed methods found in the class; addresses are symbolic (block label and offset), the allocator itself is judged by its own property.' + TRUST)

P('C16', 'Sibling lists of a writable document stay consistent',
  'After every operation that links, unlinks, joins or replaces elements of a writable document, the children and the attributes of each element form one closed ring whose forward and backward links agree, contain exactly the expected elements in the expected order, and are reached from the parent by its first element. An element that was removed is linked only to itself. Walking the lists visits each element of the ring exactly once and ends.',
  ['inputs', 'histories', 'programs'], 'all list operations on lists of zero, one, two and more elements and every position of the affected element',
  'The tests only append; removing or replacing the first, last or only element and joining of two lists need specific histories.',
  ['src/bin_write_plugin.cpp'], [('BW_element::join', 'src/bin_write_plugin.cpp'), ('BW_element::replace', 'src/bin_write_plugin.cpp'), ('BW_element::remove', 'src/bin_write_plugin.cpp')],
  'abstract interpretation of each list operation over symbolic ring shapes (shape analysis by representative rings)',
  'Rings of up to four elements represent all longer ones because each operation touches only immediate neighbours; memory links are the offsets inside the pool.' + TRUST)

P('C13', 'Space of a writable document is handed out once, aligned and cleared',
  'Every block that a writable document hands out lies behind all blocks handed out before and inside the file, is aligned as requested, is as big as requested and contains zeros. A request that is negative, overflows or does not fit is refused and changes nothing. Growing the document extends the file before its limit moves, never passes the mapped size, and keeps everything stored so far.',
  ['inputs', 'fault_sequences', 'histories'], 'every requested size at every fill of the document, and every failing extension of the file',
  'Tests allocate a few small blocks in a nearly empty document; sizes at the limit, huge or negative sizes and failing growth are never reached.',
  ['src/bin_write_plugin.cpp'], [('BW_pool::allocate', 'src/bin_write_plugin.cpp'), ('BW_pool::allocate8', 'src/bin_write_plugin.cpp'), ('BW_plugin::makeSpace', 'src/bin_write_plugin.cpp')],
  'abstract interpretation of allocation and growth at all boundary relations of size, fill and limit; store events compared with the granted block',
  'Boundary values stand for the ranges between them; the kernel is trusted to zero new pages of an extended file.' + TRUST)

P('C17', 'An existing writable document is opened only when its header is consistent',
  'An existing file is opened as writable document only if its identification, format version and recorded sizes match the library, the file and the mapping, and its used space, root element and symbol tables lie inside of it. Otherwise opening fails, the document stays unusable and the file is not changed. A consistent document is opened in the mode in which registrations are only compared with the stored names. While it is in use its mapping is neither resized nor made again.',
  ['inputs', 'fault_sequences'], 'every value of every header field, every relation of file, recorded and mapped size, every failing system call',
  'Tests open only files which the same program just created; damaged, foreign or cut files never occur.',
  ['src/bin_write_plugin.cpp'], [('BW_plugin::CheckExistingFile', 'src/bin_write_plugin.cpp'), ('BW_plugin::Initialize', 'src/bin_write_plugin.cpp')],
  'abstract interpretation of opening for each deviation of each header field and each outcome of each system call',
  'One deviating field at a time, at the boundaries of its range; elements inside the used space are not validated by the library.' + TRUST)

P('C18', 'Names registered in a writable document keep their ID, name and type',
  'After any sequence of registrations, every registered ID of a tag or attribute leads to exactly the name and type it was registered with, and every name leads to its ID, before and after the symbol tables are completed, cleared or extended. In an existing document a registration succeeds exactly if it agrees with the stored one, and the ID range, order and count are kept. A refused or failed registration changes nothing.',
  ['inputs', 'histories', 'fault_sequences'], 'all sequences of registrations with IDs in and out of order, all lengths of names, all types, all failing allocations',
  'The tests register a handful of consecutive small IDs once; IDs above 127, gaps, conflicting types, repeated and refused registrations never occur.',
  ['src/bin_write_plugin.cpp'], [('BW_plugin::registerTag', 'src/bin_write_plugin.cpp'), ('BW_symbol_table_16B::getByName', 'src/bin_write_plugin.cpp'), ('BW_pool::makeTable', 'src/bin_write_plugin.cpp'), ('BW_plugin::Clear', 'src/bin_write_plugin.cpp')],
  'abstract interpretation of registration, lookup, completion and clearing on symbol tables in memory; the resulting bytes are decoded and compared with the registered names',
  'Representative table sizes (none to beyond 255 names), name lengths modulo four and all types; longer histories are covered as each step is judged from each state.' + TRUST)

P('C19', 'Elements count as written only after their whole record was appended',
  'Writing a list of elements into the master document appends each element of the list exactly once and in order, and marks an element as written only after its whole record, starting at the alignment of the end of the file, was stored by a successful write. Success is reported exactly if all elements were appended. When an append fails, its element and all following ones stay unmarked and no part of the record remains in the file.',
  ['fault_sequences', 'inputs', 'histories'], 'lists of any length, every outcome of every append, every alignment of the end of the file, every failing or short system call',
  'Tests append to a healthy disk only; failing or short writes in the middle of a list and files of odd length are never met.',
  ['src/bin_write_plugin.cpp', 'src/bin_xml_creator.cpp'], [('BW_plugin::Write', 'src/bin_write_plugin.cpp'), ('Bin_xml_creator::Append', 'src/bin_xml_creator.cpp')],
  'abstract interpretation of list writing and of one append over all outcomes of its steps; order of mark and append events',
  'Lists of one to five elements stand for longer ones; a write that reports n bytes is trusted to have stored the first n.' + TRUST)

P('C24', 'The registry of open writable documents knows exactly the existing documents',
  'Every writable document is known to the library from its creation until its destruction: looking up the memory of a document answers exactly the document it belongs to, whatever other documents were created and destroyed before and in whatever order. A destroyed document is never found again. When the registry is full a further document is refused and all others stay known.',
  ['histories'], 'all orders of creation and destruction of documents up to and beyond the capacity of the registry',
  'Tests have at most two documents and destroy them at the end; removal from the middle and a full registry never occur.',
  ['src/bin_write_plugin.cpp'], [('BW_plugins::registerPlugin', 'src/bin_write_plugin.cpp'), ('BW_plugins::unregisterPlugin', 'src/bin_write_plugin.cpp'), ('BW_plugins::getPlugin', 'src/bin_write_plugin.cpp')],
  'abstract interpretation of histories of the registry with lookups of all documents after each',
  'All histories of up to four steps with three documents, and removals at all ends and the middle of a full registry; single threaded use.' + TRUST)

P('C11', 'Symbol tables are complete, ordered and found by name',
  'Serialising a document registers the name of every element and every attribute exactly once, keeps each table in one strict order with every name beside its value type, and finds a name exactly if it is registered, at its own position, in the creator as well as in the reader. Built-in names lead to their fixed IDs and printable names. A full table or a failed allocation refuses the name and changes nothing.',
  ['inputs', 'fault_sequences', 'histories'], 'all tables of small size, all orders of insertion, names of every relation (prefixes, equal, case, non ASCII) and the limit of the tables',
  'Tests convert documents with a few ordinary names; prefixes, non ASCII names, names declared twice, and tables at their limit never occur.',
  ['src/bin_xml_creator.cpp', 'src/bin_xml.cpp', 'src/bin_xml_packer.cpp'], [('Bin_xml_creator::Find', 'src/bin_xml_creator.cpp'), ('Bin_xml_creator::FindOrAdd', 'src/bin_xml_creator.cpp'), ('_XB_symbol_table::getSymbol', 'src/bin_xml.cpp')],
  'abstract interpretation of search, insertion and table construction over tables laid out in abstract memory; the resulting tables are decoded independently',
  'Tables of zero to about twenty names stand for longer ones (the search halves an interval), the limit is judged at its boundary.' + TRUST)

P('C12', 'A serialised node describes its element completely and stays inside the buffer',
  'The record of an element states its name, the number of its attributes and children and its own size, contains one complete entry for each attribute and one reference for each child, which lead to what was stored for them, and its own value in the stored form of its type. Nothing is stored outside the allocated buffer, and serialisation fails if the element does not fit or a nested step fails. The headers of symbol tables and documents carry the sizes and counts of what follows.',
  ['inputs', 'fault_sequences'], 'every number of attributes and children, every value type, both kinds of sources, every fill of the buffer and every failing nested step',
  'Tests serialise a few documents with plenty of space; elements at the end of the buffer, out-of-line attribute values of every type, and failures in nested elements never occur.',
  ['src/bin_xml_creator.cpp'], [('Bin_xml_creator::WriteNode', 'src/bin_xml_creator.cpp'), ('XStoreParamsEvent/XStoreChildrenEvent', 'src/bin_xml_creator.cpp'), ('WriteChildSymbols', 'src/bin_xml_creator.cpp')],
  'abstract interpretation of the serialisation of one node with contracts for nested nodes and value conversions; the stored bytes are decoded and compared with the element',
  'Up to three attributes and children stand for more (every one is handled by the same callback); conversions are judged by C06.' + TRUST)

P('C15', 'Typed reading answers exactly the stored value or nothing',
  'Every typed read of an element or attribute, of a document opened for reading or of a writable one, answers the value stored in exactly this element or attribute, at its aligned place and its width, if the stored type is one the read serves. A text read as a number is converted from this text in this call. Any other type is answered with nothing. The type of a stored value can be changed only to one which is stored alike, and nothing else changes by it.',
  ['inputs', 'programs', 'histories'], 'every stored type, every number of attributes and children before the value and every residue of its address, in any sequence of reads',
  'Tests print whole documents and read a few 32-bit values; 64-bit values behind an odd number of attributes, mismatching types and second reads never occur.',
  ['src/bin_xml.cpp', 'include/binary_xml/bin_xml.h', 'src/bin_write_plugin.cpp'], [('XML_Item::getInt64Ptr/getData/...', 'src/bin_xml.cpp'), ('XML_Param_Description::getInt32Ptr/getData/...', 'src/bin_xml.cpp'), ('BW_element::getInt32/getStr/...', 'src/bin_write_plugin.cpp')],
  'abstract interpretation of every typed read over stored types and layouts; width of answered places by a compiled type witness',
  'Conversions to and from text are judged by C06; the result of a text conversion is only required to come from the right text.' + TRUST)

P('C26', 'Walking a document visits every node exactly once in order',
  'Attributes and children of an element, reached by position or by name, are exactly the stored ones in their stored order, the first one for a name; recursive visits meet every element below exactly once, parents before or after their children as promised, at the right depth. Walking the children of an element that ends with the marker of appended elements continues with every appended element in order up to the first one that is incomplete or invalid, and then ends for good. Places inside of a document and addresses of its texts correspond to each other only inside of the document.',
  ['inputs', 'programs'], 'all numbers of attributes and children, places before and behind the element, all lengths (residues) of the document and of appended elements, fragments at the end',
  'Tests walk complete small documents; appended elements of odd length, invalid or cut appended elements and positions outside never occur.',
  ['src/bin_xml.cpp', 'include/binary_xml/bin_xml.h'], [('XML_Item::getNextChild', 'src/bin_xml.cpp'), ('XML_Item::getChildByIndex/getChildByName', 'src/bin_xml.cpp'), ('XML_Item::ForAllChildrenRecursively*', 'src/bin_xml.cpp')],
  'abstract interpretation of the walking operations over element layouts; the sequence of answers is compared with the layout',
  'Elements with up to four children and a tree of depth three stand for larger ones; termination on cyclic references is outside (the validator follows them as well).' + TRUST)

P('C21', 'Sources hand over each element, attribute and value once',
  'The sources of the conversion report the elements, attributes and values of their input completely: an XML document with its text however it is split into character data, CDATA sections and entity references; a JSON document with its names, decoded texts and array items; a writable document with its attributes and symbols. Each is handed over exactly once, in document order, under its parent, and nothing is invented; malformed or unreadable input is refused.',
  ['inputs'], 'all documents of the three input formats',
  'The sample inputs are plain: no CDATA, comments, entities, escapes, nested arrays or malformed input, and nothing compares the output of the sources.',
  ['src/bin_xml_plugin.cpp', 'src/bin_json_plugin.cpp', 'src/jsmn/jsmn.c', 'src/bin_write_plugin.cpp'], [('getNodeValue', 'src/bin_xml_plugin.cpp'), ('ForAllChildren', 'src/bin_json_plugin.cpp'), ('jsmn_parse', 'src/jsmn/jsmn.c'), ('ForAllBinParams', 'src/bin_write_plugin.cpp')],
  'abstract interpretation of the sources on modelled node trees, texts and heaps; the sequence of callbacks is compared with the document',
  'Representative trees and texts with all kinds of parts; text behind the first child element of an XML element is not stored (one value per element). The XML library is trusted.' + TRUST)

P('C29', 'Copying into a writable document copies exactly the requested part',
  'Copying an element of a read document into an empty element of a writable document copies all its attributes, values and children with names, types and values, in order. Copying a path reuses the elements of the writable document with the same name and the same key attributes and creates each missing one once under its parent with its keys (the last one whole or with its keys only); other content of the document is unchanged. Importing symbols keeps their names and joined types. When something cannot be copied or imported (type, space, different root), failure is answered, never success.',
  ['inputs', 'states', 'faults'], 'all source documents, all states of the writable document, all key attributes, full files',
  'No test copies between documents; a lost value, a merge into a wrong sibling or a silently incomplete copy shows up only for particular contents of both documents.',
  ['src/bin_write_plugin.cpp', 'src/bin_xml.cpp', 'src/bin_xml_types.cpp'], [('CopyAll', 'src/bin_write_plugin.cpp'), ('CopyPath_', 'src/bin_write_plugin.cpp'), ('EqualKeys', 'src/bin_write_plugin.cpp'), ('importTags', 'src/bin_write_plugin.cpp')],
  'abstract interpretation of copying on complete source documents and states of the writable document, which is decoded and compared with the specified result',
  'Source trees with all value types, fourteen and more states of the writable document, seven paths, three sets of keys, full files. The symbol tables of both documents agree (result of importing into an empty document).' + TRUST)

P('C20', 'Converting a source into .xb stores the whole document or fails',
  'Converting an XML, JSON or .xbw source into an .xb file, by any of the ways in the interface, leaves a closed file that says exactly the source: every element and attribute once, under its parent, in order, with its name and a value that reads as the same text (or the same number); the symbol tables hold each used name once; name, time and hash of the source are there. When any request to the system fails on the way, the conversion answers failure or stops, or the file is complete all the same. Memory, files and mappings are given back exactly once, and no byte of the file is left unset.',
  ['inputs', 'faults'], 'all source documents; every single failing request of memory, file or mapping',
  'Tests convert a few files without looking at the result byte by byte, and never let the system fail.',
  ['src/bin_xml_creator.cpp', 'src/bin_xml_packer.cpp', 'src/bin_xml_plugin.cpp', 'src/bin_json_plugin.cpp', 'src/bin_xml_types.cpp'], [('Make_xb', 'src/bin_xml_creator.cpp'), ('WriteNode', 'src/bin_xml_creator.cpp'), ('XStoreParamsEvent', 'src/bin_xml_creator.cpp'), ('GetXB', 'src/bin_xml_packer.cpp')],
  'abstract interpretation of complete conversions with a model of the system in which every request may fail; written bytes are decoded independently and compared with the source',
  'Representative documents (all ordered trees of up to four elements with two names, all kinds of values, colliding and builtin names, 140 names) stand for all others; one failure per conversion. Floating point values, dates out of range and values that the tool refuses are outside; times of the source file are given.' + TRUST)

P('C28', 'Converting a source into .xbw stores the whole document or fails',
  'Converting an XML source into an .xbw file leaves a writable document that says exactly the source: every element and attribute once, in the rings of its parent, in order, with its name and a value of the type declared for that name which reads as the same text (or number); the tables hold each used name once, and everything lies inside the file. Converting that file into .xb says the same again. When any request to the system fails on the way, failure is answered or the program stops. Memory, files and mappings are given back exactly once.',
  ['inputs', 'faults'], 'all source documents; every single failing request of memory, file or mapping',
  'Tests convert one file into .xbw without failures; joins of types, growth of the file and values of mixed types never occur.',
  ['src/bin_xml_creator.cpp', 'src/bin_write_plugin.cpp', 'src/bin_xml_types.cpp'], [('Make_xbw', 'src/bin_xml_creator.cpp'), ('XStore2XBWEvent', 'src/bin_xml_creator.cpp'), ('XBWStoreChildrenEvent', 'src/bin_xml_creator.cpp'), ('InitEmptyFile', 'src/bin_write_plugin.cpp')],
  'abstract interpretation of complete conversions with a model of the system; the shared memory is decoded independently, compared with the source and converted again',
  'The documents of C20. JSON sources are refused (their root has no name). Pages of the mapping are the contents of the file.' + TRUST)

P('C22', 'Text and encoding helpers do what they say and stay inside their buffers',
  'The helpers for texts answer exactly their definition for every text: scanning of numbers, addresses, words and lines (both pointer variants the same) advances behind what was recognised and leaves position (up to spaces) and value alone otherwise; base64, hexadecimal and GUID encoding are exact and decoding inverts them, cut to the size of the buffer; numbers are printed completely, dates and times (before 1970 too) as the calendar says; identifiers, masks, versions, extensions of file names and ends of texts are handled as defined. Only the given texts and buffers (including their sizes) are read or written.',
  ['inputs'], 'all texts, buffer sizes and positions',
  'No test calls these helpers; buffer borders, empty texts, dots in directories and extreme values need chosen inputs.',
  ['src/utils.cpp', 'include/binary_xml/utils.h'], [('ScanInt/ScanInt64/ScanUInt64/ScanStr', 'src/utils.cpp'), ('base64_encode/base64_decode', 'src/utils.cpp'), ('AllocFilenameChangeExt', 'src/utils.cpp'), ('MakeIdent', 'src/utils.cpp')],
  'abstract interpretation of every helper for all texts over small alphabets and all border cases of its loops and buffers; results compared with independent definitions, every access checked against the buffers',
  'Texts are bounded: all texts over a small alphabet per helper and chosen longer ones. Numbers too big for their type are not defined.' + TRUST)

P('C23', 'Hashes are SHA-1 of all bytes and sorting keeps every item',
  'The hash of a block of memory, of parts given one after another, or of a file is the SHA-1 of exactly these bytes, whatever their number and however they are cut into parts or come from the system; a file which cannot be read is refused. Sorting arranges all items in order, each exactly once, inside of the given array; merge sort keeps the order of equal items.',
  ['inputs', 'faults'], 'all contents, lengths, partitions and arrangements',
  'Tests hash nothing with a known result and sort only what one document needs; lengths near the border of a block and unlucky arrangements do not occur.',
  ['src/missings.cpp', 'include/binary_xml/missings.h'], [('SHA1', 'src/missings.cpp'), ('blk_SHA1_Update', 'src/missings.cpp'), ('mergesort_r2', 'src/missings.cpp'), ('qsort_r2', 'src/missings.cpp')],
  'abstract interpretation of the hash at all borders of blocks and lengths, compared with an independent SHA-1; of sorting for all arrangements of few items',
  'Messages up to some blocks (the length field also beyond 32 bits); all arrangements of up to 5 items, of two values up to 7 and some longer ones.' + TRUST)

P('C34', 'No document exhausts the stack',
  'The stack which reading, converting, packing, comparing, printing and writing documents needs is bounded by a constant: no length of a text, number of elements or nesting of a document makes the program overflow it. Documents nested deeper than a reader accepts are refused by every conversion before anything is written.',
  ['inputs'], 'all documents: every nesting, every number of elements, every length of texts',
  'Tests use small documents; a recursion without limit or a buffer on the stack sized by the input crashes only for documents nobody tests with.',
  ['src/bin_xml.cpp', 'src/bin_xml_creator.cpp', 'src/bin_xml_packer.cpp', 'src/bin_write_plugin.cpp', 'src/bin_json_plugin.cpp', 'src/bin_xml_types.cpp'], [('XML_Item::Check', 'src/bin_xml.cpp'), ('FirstPassEvent', 'src/bin_xml_creator.cpp'), ('jsmn_prepare_total_size', 'src/bin_json_plugin.cpp')],
  'interprocedural bound analysis of stack frames, recursion (cycles of the call graph and the depth which ends them) and abstract interpretation of conversions at the limit',
  'Stack of 8 MB; frames as allocated by the compiler IR, areas of separate scopes counted once. Recursion over documents relies on the depth being limited when they are opened or converted; depth of XML sources by libxml2.' + TRUST)

P('C35', 'The file helpers do what they report',
  'Helpers answer about files exactly what the system tells: the size (also beyond 4 GB), the time of change and the existence of the named file, and failure (-1 or false) when the system cannot tell it. Making the directories of a path makes each of them, the outer ones first, accepts existing ones and reports success exactly if all exist. Listing a directory tells each entry but . and .. once, in order, until the caller asks to stop, and reports failure exactly if the directory could not be read. Reading a file answers its complete content with a terminating zero, or nothing. Sharing maps the file with the access asked for, and never truncates it. Writing a text reports success exactly if it was written completely. What was opened is closed once in every case, and asking changes nothing.',
  ['inputs', 'fault_sequences'], 'all answers of the system: sizes, names, entries, and every failing request',
  'Tests cannot make stat, read, mmap, mkdir, closedir or fclose fail, and use a few small files in existing directories.',
  ['src/files.cpp', 'src/utils.cpp'], [('force_directory', 'src/files.cpp'), ('scan_dir', 'src/files.cpp'), ('ReadFile', 'src/utils.cpp'), ('s_ShareFile', 'src/utils.cpp')],
  'abstract interpretation of each helper over the answers of a model of the system calls',
  'The system is a model of its documented contracts; sizes and paths are representatives (boundaries of 31, 32 bits and of PATH_MAX). No other process changes the files.' + TRUST)

N('C30', 'Converting a document forth and back preserves it',
  'Converting any XML or JSON document to binary form and back yields a document with the same elements, attributes, order and values.',
  ['inputs'], 'every source document', 'Tests compare a few documents.', ['src/bin_xml_creator.cpp', 'src/bin_xml.cpp'],
  [('Bin_xml_creator::DoAll', 'src/bin_xml_creator.cpp')],
  'Equality of complete documents of unbounded shape relates runtime contents of two files; no static argument in reach decides it. Its local parts are claimed separately (C05, C06, C08, C11, C12, C25).')

N('C31', 'Numbers in text are recognised exactly',
  'A text is stored as a number, time or identifier exactly if converting the stored value back yields the same text.',
  ['inputs'], 'every text', 'Tests sample a few texts.', ['src/bin_xml_types.cpp'], [('XBT_Detect', 'src/bin_xml_types.cpp')],
  'It quantifies over arithmetic values of all texts (rounding of decimals, leading zeros); the languages of the recognisers are not separable from the arithmetic by a static rule. Known to be false for leading zeros by design of the format.')

N('C32', 'Concurrent processes see consistent documents',
  'A process which maps a document while another process appends to it sees each element either completely or not at all.',
  ['schedules'], 'every interleaving of processes', 'Tests are single process.', ['src/bin_write_plugin.cpp', 'src/bin_xml_creator.cpp'],
  [('Bin_xml_creator::Append', 'src/bin_xml_creator.cpp')],
  'The code contains no synchronisation between processes at all (no locks, fences or atomic publication), so there is nothing a static rule could pair; the guarantee is not provided.')

N('C33', 'A writable document survives a crash',
  'After a crash of the writing process at any point, reopening a writable document finds either the state before or after the interrupted operation.',
  ['crash_points'], 'every crash point', 'Tests do not crash.', ['src/bin_write_plugin.cpp'], [('BW_plugin::Initialize', 'src/bin_write_plugin.cpp')],
  'The order in which pages of a shared mapping reach the disk is decided by the kernel at run time; the code issues no ordering (msync) that could be analysed.')
