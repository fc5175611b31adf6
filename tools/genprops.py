#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/genprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","EPC tags decode to exactly the fields their bits encode",
  "For every 96-bit SGTIN, SSCC, GRAI or GIAI tag with a defined partition value whose field values fit the digits of that partition, translation returns the pure-identity URI of that scheme built from the company-prefix bits and the reference bits the GS1 partition table assigns, each as a decimal number zero-padded to the table's digit count, then for SGTIN and GRAI the 38-bit serial without padding; the GIAI asset reference is not padded and a GRAI with a 12-digit company prefix has no asset type. The filter value, and any bit outside those fields, never changes the result.",
  ["inputs"],"every 12-byte ID: 4 headers x 7 partitions x all values of the remaining 82 bits",
  "one vector per scheme and partition is tested; each partition has its own shift-and-mask code, so a single wrong mask, shift or index shows only for particular bit values",
  ["tdt/core.go","tdt/epc.go"],[("EPC binary decoder","tdt/core.go Core.Translate/buildEPC"),("partition tables","tdt/epc.go *96PartitionTable")])
p("C02","Translating any tag gives an identity or an error, never a crash or a blank",
  "For every protocol-control value and every ID of any length and content, translation terminates without panicking and returns either an error or a complete identity, never an empty or truncated identity without an error. A PC that is not two bytes, an empty ID, an EPC header other than the four supported ones, an EPC of a supported scheme that is not 12 bytes or has partition value 7, a company prefix or padded reference with more decimal digits than its partition allows, and an AFI outside 0xA1-0xAA are all reported as errors.",
  ["inputs"],"all PC lengths 0-4 and values, all 256 EPC headers, all 8 partitions, all ID lengths 0-62 bytes, arbitrary remaining bits",
  "tests translate well-formed tags only; a reader can deliver anything",
  ["tdt/core.go"],[("PC/NSI dispatch and guards","tdt/core.go Core.Translate, buildEPC, buildUII")])
p("C03","ISO item identifiers decode character by character for every length",
  "For an ISO tag the AFI alone selects the standard in the identity (A1 17367, A2 17365, A3 17364, A4 17367h, A5 17366, A6 17366h, A7 17365h, A8 17364h, A9 17363, AA 17363h), and the rest is the ID read as consecutive 6-bit characters from the first bit: a group whose top bit is 0 gets 64 added, a group equal to the pad character 100000 is dropped, every other group is its own ASCII code. Left-over bits that do not fill a group are ignored, and no ID length makes the decoder read outside the ID.",
  ["inputs"],"all 256 AFI values, every ID length 0-62 bytes, arbitrary bits",
  "a handful of IDs of a few lengths are tested; the four bit alignments times three character classes and every length are not",
  ["tdt/core.go"],[("AFI dispatch","tdt/core.go buildUII"),("6-bit decoder","tdt/core.go parse6BitEncodedByteSliceToString")])
p("C04","A subscription pattern compiles to the exact bit prefix it names",
  "For an SGTIN-96, SSCC-96, GRAI-96 or GIAI-96 pattern the compiled filter is the scheme's 8-bit header, the filter value in 3 bits, then (when given) the partition for the company prefix's digit count with the company prefix, the reference and the 38-bit serial, each field the binary value of its own decimal field left-padded with zeros to the GS1 width; ISO 17363 and 17365 patterns are the 6-bit codes of their fields in order, with the 17363 serial zero-padded to six digits and followed by the ISO 6346 check digit of owner code, equipment identifier and serial. Giving one more field only appends bits. No fields, too many fields, a blank field, a non-numeric field of an EPC pattern, a filter value above 7, a company prefix of unsupported length, or an unknown pattern type is an error and yields no filter.",
  ["inputs"],"every pattern type, field count 0-6, company-prefix length 0-14, and every field value that fits its width",
  "tests sample a few patterns; a swapped field, a wrong width for one prefix length or a lost leading zero needs a specific combination",
  ["tdt/epc.go","tdt/iso.go","tdt/core.go"],[("pattern compiler","tdt/core.go MakePrefixFilterString; tdt/epc.go NewPrefixFilter*; tdt/iso.go NewPrefixFilterISO*")])
p("C05","The tag generator emits well-formed tags and filters or an error",
  "Generating an SGTIN-96, SSCC-96, GRAI-96 or GIAI-96 tag from given values returns either an error or exactly 12 bytes laid out as header, 3-bit filter value, partition, company prefix, reference and serial (24 zero bits after the SSCC extension) with each given value in its own field; ISO 17363/17365 tags are the 6-bit codes of their fields (17363 with its check digit) padded with repetitions of 100000 to a 16-bit boundary, and the reported length is that of the padded code. In prefix mode the returned bits and the returned pattern URI name the same fields. An unsupported company-prefix length, a missing mandatory field (the company prefix of an EPC, the issuing agency code and company identification of an ISO 17365 tag) or, when generating a tag, a value too wide for its field is always an error.",
  ["inputs"],"all schemes, company-prefix lengths 0-14, both modes, every combination of present and blank fields, every value that fits its field (and for tags, any wider value)",
  "tests pin prefix-mode strings for a few vectors; the 96-bit packing is never asserted",
  ["scheme/epc.go","scheme/iso.go","scheme/generate.go"],[("tag packer","scheme/epc.go Make*96; scheme/iso.go MakeISO*")])
p("C06","Generated tags, compiled patterns and decoded identities agree",
  "For every SGTIN-96, SSCC-96, GRAI-96 and GIAI-96 value set that fits its fields, the pattern compiled from the first n values is a bit prefix of the tag generated from all of them, and translating that tag gives an identity whose fields are decoded from exactly the bits the generator wrote for them; likewise an ISO 17363/17365 pattern is a bit prefix of the generated tag.",
  ["inputs"],"all schemes, all 7 partitions, all prefixes of the field list, all values that fit",
  "the generator, the pattern compiler and the decoder each have their own tables and their own tests; no test composes them",
  ["scheme/epc.go","scheme/iso.go","tdt/epc.go","tdt/iso.go","tdt/core.go"],[("duplicated partition tables","scheme/epc.go and tdt/epc.go *PartitionTable")])
p("C07","A bit filter matches an ID exactly when its own bits agree",
  "A filter built from a non-empty bit string and a bit offset matches an ID if and only if the ID has a bit at every position the filter covers and each of them equals the filter's bit (x matches either); neighbouring bits in the same bytes never matter. Matching never reads outside the ID, whatever its length, and an ID too short for the filter does not match.",
  ["inputs"],"all offsets (every alignment within a byte), all filter lengths 0-97, all bit values, all ID lengths",
  "tests check particular padded byte values; alignment x length x mask combinations and short IDs are not covered",
  ["filtering/filter_object.go"],[("mask construction","filtering/filter_object.go makeFilter/NewFilter"),("comparison","filtering/filter_object.go FilterObject.Match")])
p("C08","Saving and restoring an engine or subscription set loses nothing",
  "For each of the four engines, for subscription sets and for trie nodes, decoding the bytes produced by encoding reproduces the whole content: every filter with all its attributes, every report URI, the exact tree shape, and a working translator. Restoring into an engine that already holds content replaces it.",
  ["inputs","histories"],"every content: any number of entries, any combination of present and absent children, any values",
  "round-trip tests use one tree shape or none (the legacy engine has no cases); a swapped or skipped child is invisible unless exactly one child exists",
  ["filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/legacy_engine.go","filtering/subscriptions.go"],
  [("gob encoders/decoders","filtering/*.go MarshalBinary/UnmarshalBinary pairs")])
p("C09","Restoring foreign, truncated or corrupt data is always reported",
  "Restoring an engine from bytes saved by a different engine type, or restoring an engine, a subscription set or a partial subscription from data in which any element is missing or undecodable, returns an error; a restore that returns no error has read every element.",
  ["inputs","fault_sequences"],"a decode failure at every single read of every restore routine, and every foreign type tag",
  "no test feeds truncated data; a later successful read overwrites the earlier error",
  ["filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/legacy_engine.go","filtering/subscriptions.go"],
  [("error discipline of decoders","filtering/*.go UnmarshalBinary")])
p("C10","The Patricia trie holds exactly the subscribed filters after every change",
  "Building a Patricia trie from subscriptions stores exactly their filters with their report URIs; adding a subscription adds exactly its filters (replacing the report URI of an identical filter) and deleting one removes exactly its filters when they are registered for that report URI, whatever the prefix relations between old and new filters. Every other filter stays registered and reachable.",
  ["inputs","histories"],"all trie shapes reachable by build/add/delete and every prefix relation of the new filter to the stored ones",
  "the trie tests are commented out; each prefix relation takes a different restructuring branch",
  ["filtering/patricia_trie.go"],[("trie restructuring","filtering/patricia_trie.go PatriciaTrieNode.add/delete/build, NewPatriciaTrie")])
p("C11","Patricia search reports every matching filter and no other",
  "Searching a Patricia trie returns the report URI of every stored filter that is a bit prefix of the tag's ID and of no other filter, for IDs of any length, without changing the trie.",
  ["inputs"],"all trie shapes, all IDs including ones shorter than the filters",
  "search is not asserted by any running unit test beyond benchmarks",
  ["filtering/patricia_trie.go","filtering/engine.go"],[("descent by next bit","filtering/patricia_trie.go PatriciaTrieNode.search; filtering/engine.go getNextBit")])
p("C12","The splay tree holds exactly the subscribed filters after every change",
  "Building a splay tree from subscriptions stores exactly their filters with their report URIs, nested under the filters that are their prefixes; adding a subscription adds exactly its filters (replacing the report URI of an identical filter) and deleting one removes exactly its filters when they are registered for that report URI, whatever the prefix relations. Every other filter stays registered and reachable, and alternatives on one level never prefix one another.",
  ["inputs","histories"],"all tree shapes reachable by build/add/delete/search and every prefix relation of the new filter to the stored ones",
  "the splay tests are commented out",
  ["filtering/splay_tree.go","filtering/subscriptions.go"],[("tree restructuring","filtering/splay_tree.go SplayTreeNode.add/delete/build; filtering/subscriptions.go linkSubset")])
p("C13","Splay search is correct and its reorganisation loses nothing",
  "Searching a splay tree returns the report URI of every stored filter that is a bit prefix of the tag's ID and of no other filter, never a blank one; the reordering it performs only moves the matched entry to the front of its own level, so afterwards the tree holds the same filters and any later search gives the same answers.",
  ["inputs","histories"],"all tree shapes, all IDs, every position of the match, and thus every history of searches",
  "the effect of a misplaced node appears only on a later search of a particular ID after a particular earlier one",
  ["filtering/splay_tree.go"],[("move to front","filtering/splay_tree.go SplayTreeNode.splaySearch")])
p("C14","List and legacy engines add and delete exactly the named subscriptions",
  "Adding a subscription to the list or legacy engine makes each of its entries present exactly once and leaves the others alone; deleting removes exactly the named entries that are present, including several in one call, and leaves every other entry in place. A list search reports exactly the entries whose filter matches, and a legacy search exactly the entries whose pattern text is a prefix of the tag's pure identity of the same scheme.",
  ["inputs","histories"],"all contents of 0-3 entries and all add/delete sets over present, absent and repeated entries",
  "the legacy engine's tests have no cases; deletion while indexing a stale slice shows only with two or more deletions in one call",
  ["filtering/list.go","filtering/legacy_engine.go"],[("entry bookkeeping","filtering/list.go, filtering/legacy_engine.go AddSubscription/DeleteSubscription")])
p("C15","Every valid pattern becomes a filter for its report URI and no invalid one does",
  "Preprocessing subscriptions yields one filter per valid urn:epc:pat pattern, carrying the report URI that asked for it at offset zero; a pattern that is malformed or does not compile contributes nothing, in particular never a filter that matches everything. Loading a subscription file keeps, for each row whose first column is an http(s) URI, every pattern of that row in order, and ignores other rows; patterns are recognised case-insensitively throughout.",
  ["inputs"],"any number of report URIs and patterns, every mix of compilable, uncompilable and malformed patterns, any CSV rows",
  "tests use valid patterns only",
  ["filtering/subscriptions.go"],[("pattern preprocessing","filtering/subscriptions.go ToByteSubscriptions, LoadSubscriptionsFromCSVFile")])
p("C16","A search result is consistent: match and identity, or no match and an error",
  "For every engine, a search that finds no matching subscription returns an error and no report URI; a search that finds one or more returns their report URIs, none blank, together with the translation of that very tag's PC and ID, and an error only if the translation failed. Searching the list, Patricia or legacy engine modifies nothing.",
  ["inputs"],"all four engines, any content, any read event, translation succeeding or failing",
  "engine Search has no unit tests with assertions on errors",
  ["filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/legacy_engine.go"],[("engine entry point","filtering/*.go Search")])
p("C17","Engines own their data: caller subscriptions are neither kept nor modified",
  "No engine constructor, add or delete operation keeps a reference to the caller's subscription map or to any slice in it, and none modifies them; so several engines can be built from one subscription set, and later changes to one engine or to the caller's set never leak into another. Cloning a subscription set yields an equal set sharing nothing with the original.",
  ["inputs","histories"],"every engine and operation, any subscription set",
  "aliasing shows only when two engines built from the same set are changed in sequence",
  ["filtering/legacy_engine.go","filtering/subscriptions.go","filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go"],[("Clone on construction","filtering/subscriptions.go Clone")])
p("C18","Identical subscriptions give identical engines, dumps and saved bytes",
  "The content and order of a built engine, of its textual dump, of its saved bytes, of key listings and of search results depend only on the subscriptions and the operations performed, never on map iteration order.",
  ["inputs","schedules"],"every permutation of the runtime's map iteration over up to three entries",
  "map order is randomised per run, so a test passes or fails by luck and small maps often agree",
  ["filtering/subscriptions.go","filtering/legacy_engine.go","filtering/list.go"],[("sorted key listing","filtering/subscriptions.go Keys")])
p("C19","Engine registry, engine names, saved-type tags and priorities agree",
  "Every registered engine reports the name it is registered under, stamps its saved form with a type tag that only the same engine accepts, has its own deployment priority, and is told apart from the other engines in monitoring by a distinct number.",
  ["configurations","programs"],"every engine in the registry",
  "no test relates the registry, the names, the tags, the priority table and the monitoring table",
  ["filtering/engine.go","filtering/engine_factory.go","monitoring/stat_manager.go"],[("registry","filtering/engine.go AvailableEngines"),("priority table","filtering/engine_factory.go NewEngineFactory"),("monitoring code table","monitoring/stat_manager.go")])
p("C20","Factory and generator state is free of data races",
  "Every field of the engine factory and of the engine generators that is written after start-up and touched by more than one goroutine is only accessed atomically or while holding one common lock, or is handed over through the lifecycle state machine before the engine is announced ready.",
  ["schedules"],"all interleavings of the search path, the message listener, the selection ticker, the throughput monitors and engine generation",
  "no test starts the factory",
  ["filtering/engine_factory.go","filtering/engine_generator.go"],[("shared state","filtering/engine_factory.go EngineFactory; filtering/engine_generator.go EngineGenerator")])
p("C21","An engine is built before it is announced, and only ready engines are used",
  "Each generator goes from unavailable to generating to ready exactly once per build: the engine of its own kind, built from the subscriptions it was given, is in place before the generator reports ready, and it announces itself exactly when it enters ready. Every requested lifecycle event is one the current state allows, and is given the argument its handler needs.",
  ["schedules","histories"],"every lifecycle event from every state",
  "no test drives the state machine",
  ["filtering/engine_generator.go","filtering/engine_factory.go"],[("state machine","filtering/engine_generator.go NewEngineGenerator and enter* callbacks")])
p("C22","The factory routes messages and switches engines as documented",
  "The first engine announced becomes current and a later one replaces it only if its priority is strictly higher; at the end of each interval of the configured number of seconds the engine with the highest recorded positive throughput becomes current, and current is always an announced or measured engine. Every change of engine, and every interval, tells the main program which engine is selected; traffic and throughput messages are passed on unchanged, exactly once, and the reported throughput is recorded for that engine.",
  ["histories","schedules"],"every message type in every factory state",
  "no test runs the factory's listener",
  ["filtering/engine_factory.go"],[("listener and ticker","filtering/engine_factory.go EngineFactory.Run")])
p("C23","Every search is answered by the current engine and counted once",
  "A factory search returns exactly what the current engine returns and, besides it, only exercises engines that are ready. Each engine search contributes exactly one timing sample and counts as matched exactly when it reported at least one URI, even if the search fails; the report of each interval of the configured number of seconds carries the counts since the previous report and resets them, and the throughput is the number of searches divided by their total time in microseconds.",
  ["histories","schedules"],"all sets of ready engines, all search outcomes",
  "no test exercises the generator's accounting",
  ["filtering/engine_factory.go","filtering/engine_generator.go"],[("accounting","filtering/engine_generator.go Search and monitor loop; filtering/engine_factory.go Search")])
p("C24","LLRP messages are framed exactly and each kind is answered",
  "The collector reads each LLRP message as a 10-byte header (type, length, ID) followed by exactly length-10 bytes of body, and a length below 10 or any read failure never leads to a misframed or giant read. The first answer carries the configured initial message ID. A reader-event notification is answered with a reader configuration and a keep-alive with an acknowledgement, each exactly once, and every access report's events are handed to the search stage complete and once.",
  ["inputs","fault_sequences"],"every header value, every length value, a failure at every read",
  "the main program has no tests",
  ["cmd/gosstrak-fc/main.go"],[("LLRP loop","cmd/gosstrak-fc/main.go run")])
p("C25","Every statistics message is published once as the right measurement",
  "Each traffic, throughput or engine-selection message received by the statistics manager is written to the database exactly once, alone, in the configured database under its own measurement name with its own values and engine name (a selection with the number of the engine: LegacyEngine 0, List 1, PatriciaTrie 2, SplayTree 3) and at a time of its own in at least microseconds, so that no later point replaces it; a malformed message is skipped without stopping the manager. The main program turns each traffic, throughput and selection message of the factory into exactly one such message with the same values, however busy the statistics manager is, and only when statistics are enabled.",
  ["inputs","histories"],"every message type and sequence of messages",
  "no test touches the manager",
  ["monitoring/stat_manager.go","cmd/gosstrak-fc/main.go"],[("publisher loop","monitoring/stat_manager.go NewStatManager")])
p("C26","Accepted connections and opened files are always released or handed over",
  "Every connection accepted by the servers is either handed to the protocol handler or closed on every path, one bad connection never ends the accept loop's service to others, and files opened for reading are closed on every path.",
  ["fault_sequences"],"every failure point after each acquisition",
  "no test opens a server",
  ["cmd/ale-ec/main.go","cmd/gosstrak-fc/main.go","filtering/subscriptions.go"],[("accept loops","cmd/*/main.go")])
p("C27","The bit-filter engines agree on every tag",
  "List, PatriciaTrie and SplayTree engines that are built from the same subscriptions and given the same later additions and deletions report the same set of report URIs for every tag ID, however many searches each has already answered.",
  ["inputs","histories"],"all subscription sets, histories of additions, deletions and searches, and IDs; filters in any prefix relation",
  "no differential test exists, and the three structures share no code after the subscriptions are compiled",
  ["filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/subscriptions.go"],[("Engine interface","filtering/engine.go Engine"),("constructors, add, delete, search","filtering/list.go, patricia_trie.go, splay_tree.go")])
p("C28","Captured events reach every report destination",
  "Every tag matched by a subscription is eventually delivered to the subscription's report URI, once, in order of capture.",
  ["schedules","fault_sequences"],"all event sequences and network faults",
  "delivery is not implemented or tested",
  ["cmd/gosstrak-fc/main.go"],[("report stage","cmd/gosstrak-fc/main.go run")])
p("C29","The selected engine is the fastest for the current traffic",
  "After each interval the engine in use is the one whose real per-event cost on the current traffic is lowest.",
  ["schedules","histories"],"all traffic mixes and timings",
  "depends on wall-clock measurements",
  ["filtering/engine_factory.go","filtering/engine_generator.go"],[("throughput ticker","filtering/engine_factory.go Run")])
p("C30","Every command-line option reaches the part it configures",
  "In the collector each option's own value, and no other's, is used for its purpose: the subscription file option names the file that is loaded and the loaded subscriptions are what the factory is built from; the statistics interval is the factory's; the reader address is the one dialled and the management address the one listened on; the initial message ID is the first one sent; the statistics switch decides whether statistics are collected, and the influx address, user, password and database configure the statistics manager. The factory is run exactly once. The event-capture server listens on its port option, and the gob converter reads its input option and writes its output option.",
  ["configurations"],"every value of every option",
  "the main programs have no tests; two swapped options of one type compile",
  ["cmd/gosstrak-fc/main.go","cmd/ale-ec/main.go","cmd/gobtags/main.go"],[("option wiring","cmd/*/main.go main and run")])
p("C31","The text generators emit exactly the bits, URI and protocol control of a tag",
  "MakeEPC gives, for each supported scheme name in any letter case and fields that fit, the text of the 96 bits with each argument in its own field and the protocol control 3000; in prefix mode it gives the bits of the fields present and the pattern URI that names exactly those fields. MakeISO gives for ISO 17363 and 17365 the text of the padded 6-bit code and the protocol control that carries its word count and AFI (A9, A2), and in prefix mode the unpadded code with its pattern URI. An unknown scheme, a company prefix of unsupported length, a value too wide or a missing mandatory field gives a blank text. MakeISOPC puts the number of whole words in the top five bits, 001 in the next three and the AFI in the last byte.",
  ["inputs"],"all schemes, modes, partitions and field contents; ISO IDs of up to 31 words",
  "tests pin a few printed tags; the arguments are nine interchangeable strings per call, so a swapped pair shows only for particular schemes",
  ["scheme/generate.go","scheme/epc.go","scheme/iso.go"],[("generators","scheme/generate.go MakeEPC, MakeISO"),("protocol control","scheme/generate.go MakeISOPC")])
p("C32","Text and binary forms of tags convert into each other exactly",
  "The printed forms keep every bit: PrintID gives the bits, a comma and the option; PrintGoBytes gives the two PC bytes and every ID byte in decimal; both give nothing for a blank ID. Sixenc2bin and the sixenc2bin command turn each character into its 6-bit code in order, for texts of any length, and the command never crashes for lack of an argument. The gob converter turns a text of 8n bits into exactly those n bytes and a hexadecimal PC into exactly that number, and reports an error for an ID that is blank or not a whole number of bytes and for a PC that is blank, not hexadecimal or above 16 bits. CheckIfStringInSlice is membership.",
  ["inputs"],"all contents of texts of every analysed length",
  "tests convert one or two values",
  ["scheme/generate.go","scheme/sixenc2bin/main.go","cmd/gobtags/main.go"],[("converters","scheme/generate.go PrintID, PrintGoBytes, Sixenc2bin, CheckIfStringInSlice"),("command","scheme/sixenc2bin/main.go main, sixenc2bin"),("gob converter","cmd/gobtags/main.go makeByteID, makeUint16PC")])
p("C33","Composing filters loses no filter and lets no other ID through",
  "For filters with distinct texts that share at least one byte position, the composition's own filter covers exactly the bytes all of them cover and requires exactly the bits all of them require with one value there, so it matches every ID any of them matches; and it has for each filter, under that filter's text, a child such that an ID matches both the composition's filter and the child exactly when it matches the original filter.",
  ["inputs"],"all filter sets, with wildcards, partial bytes and any offsets, and all IDs",
  "tests compose four filter pairs and compare strings; which bytes may be skipped in a child depends on wildcards and padding of every other filter",
  ["filtering/composition.go","filtering/filter_object.go"],[("composition","filtering/composition.go NewComposition, processWildcard")])
p("C34","A filter's byte views are its own bits",
  "For a filter of any text over 0, 1 and x at any bit offset: it records its text, length and offset; it has a byte at exactly the byte positions its bits touch, and nowhere else (reading there is an error); each byte it has carries the filter's bits at their positions, with bits outside the filter and wildcards masked and set; it is transparent exactly when all of its bits are wildcards; and its text names its own bits, offset and length.",
  ["inputs"],"all filter texts, offsets and byte positions",
  "tests check a few filters of one or two bytes at chosen offsets",
  ["filtering/filter_object.go"],[("byte views","filtering/filter_object.go NewFilter, HasByteAt, GetByteAt, IsTransparent, ToString")])
p("C35","No part of the collector waits for another for ever",
  "Whatever tags, keep-alives, announcements and ends of intervals arrive, in any order and at any moment, and however late the statistics database answers and the queues fill: once the database has answered, every goroutine of the collector is back waiting for its next input from outside. Every search and every query of the factory has returned, every message of the reader is consumed and answered, and each part still takes and serves its inputs: every interval's end is taken and published, tags are still searched, keep-alives answered.",
  ["schedules","histories"],"all interleavings of the reader loop, the search stage, the factory's listener and ticker, the generators, the relay and the statistics manager, with full queues",
  "no test starts the collector; a deadlock needs one particular interleaving or a full queue",
  ["cmd/gosstrak-fc/main.go","filtering/engine_factory.go","filtering/engine_generator.go","monitoring/stat_manager.go"],[("goroutines","cmd/gosstrak-fc/main.go run; filtering/engine_factory.go Run; filtering/engine_generator.go NewEngineGenerator"),("statistics","monitoring/stat_manager.go NewStatManager")])
p("C36","An engine's dump shows exactly the filters it holds",
  "After any history of building, additions, deletions and searches, the dump of an engine shows each stored filter exactly once with its report URI, and nothing that is not stored: the filters along the nesting of a line spell the stored filter's bits, and each line's offset and size are its own. The dump of a nested subscription set likewise shows every filter at its depth with its offset and report URI.",
  ["inputs","histories"],"all filter sets in any prefix relation and all histories",
  "tests compare two dumps of equal structures with each other, so a line both lack or both get wrong goes unnoticed",
  ["filtering/list.go","filtering/legacy_engine.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/subscriptions.go","filtering/filter_object.go"],[("dumps","filtering/*.go Dump and print"),("filter text","filtering/filter_object.go ToString")])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
