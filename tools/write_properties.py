"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'The 24 existing tests '
P = [
 ('M01', 'One-to-one and one-to-many links agree at both ends after any history',
  'After any sequence of constructing, assigning (the property, or by its set method), list-assigning, adding and removing, both ends of every one-to-one and one-to-many association of every model agree: an object is in the list of exactly the object its own reference names, and a one-to-one partner names it back. Taking over a partner detaches it from its previous owner and nothing else changes. Lists given by the caller stay the caller\'s. Objects of classes that a caller derives from the published ones are no exception.',
  ['histories', 'inputs'], 'all 1:1 and 1:n associations of 16 models and profiles, all concrete subclasses, classes derived by the caller, all operation histories',
  T + 'link a handful of objects of two or three associations, once, in one order; hundreds of hand-written association ends and every multi-step history (moving, re-assigning, displacing) are never run.',
  ['CIM14', 'CIM15'], [('association setters with private back-reference fields, add/remove methods', 'properties of every class, e.g. CIM15/IEC61970/Core/Terminal.py')]),
 ('M02', 'Many-to-many links agree at both ends after any history',
  'After any sequence of public operations, for every many-to-many association an object is listed by a partner exactly if it lists that partner, each once. Re-assigning a list drops the partners it no longer has and keeps the others.',
  ['histories', 'inputs'], 'all n:m associations of all models, all concrete subclasses, all operation histories without repeated members in an assigned list',
  T + 'contain no many-to-many association at all.',
  ['CIM14', 'CIM15'], [('list setters and add/remove methods that maintain the partner\'s list', 'e.g. CIM15/IEC61968/Common/ActivityRecord.py')]),
 ('M03', 'Construction gives exactly the stated values and published defaults',
  'An object constructed with any subset of its own and inherited attributes and references, by keyword or without names in the published order, holds exactly those and the published defaults for the rest; references given are established at both ends. Instances share nothing mutable, and unknown keywords are refused.',
  ['inputs'], 'all 1641 classes, any subset of arguments, named or not',
  T + 'construct about ten classes with one or two arguments; swapped, dropped or mis-forwarded arguments elsewhere go unnoticed.',
  ['CIM14', 'CIM15'], [('constructors passing keywords up the class hierarchy', '__init__ of every class')]),
 ('M04', 'An operation affects only what it is about',
  'In a population of objects of many classes linked by many associations, each operation changes only the association or attribute it names and, for associations, the partners involved; every other attribute, reference and list of every object keeps its value and order.',
  ['histories'], 'mixed random histories over populations of all models',
  T + 'look only at the association just set; interference between associations that share a partner, a base class or a storage name is never observed.',
  ['CIM14', 'CIM15'], [('one private field per reference', 'properties of every class')]),
 ('M05', 'Every published class is reachable whatever is imported first',
  'Every class of every published model and profile can be found where its package map says, with its published base classes of the same profile, whichever module of the library is imported first and in whatever order modules are loaded. A document may begin with any published class.',
  ['configurations', 'schedules'], 'every module as first import, random import orders, every class as first element read, in clean processes',
  T + 'run in one process with one fixed import order; circular imports between packages only fail for other orders.',
  ['CIM14', 'CIM15', 'PyCIM/RDFXMLReader.py'], [('package maps', 'CIM15/__init__.py, CIM14/__init__.py and profile packages'), ('import order in package modules', '__init__.py of each package')]),
 ('M06', 'A line segment has at most one per-length impedance, seen alike everywhere',
  'However the per-length impedance of a CIM15 line segment is set or cleared (generic, sequence or phase alternative, from the segment or from the impedance, at construction), the segment has at most one impedance, the generic and the specific views show the same one, and exactly that impedance lists the segment. Giving more than one at construction is refused.',
  ['histories', 'inputs'], 'all histories over segments, sequence and phase impedances',
  T + 'set each alternative once on a fresh segment; changing between alternatives, sharing and clearing are not covered.',
  ['CIM15/IEC61970/Wires/ACLineSegment.py', 'CIM15/IEC61970/Wires/PerLengthSequenceImpedance.py', 'CIM15/IEC61970/Wires/PerLengthPhaseImpedance.py'], [('alternative setters delegating to one relation', 'CIM15/IEC61970/Wires/ACLineSegment.py')]),
 ('M07', 'Classes offer the published attributes, types, defaults and references',
  'Each class of each model and profile offers its published attributes with their published type and default, its enumerations with a default among the published literals, and its published references as single values or lists. It is an instance of its published base classes, and the tables in which a class lists its attributes, types, defaults, enumerations and references say the same; this remains so however objects of the classes have been built, linked, written or read.',
  ['inputs', 'histories'], 'all classes, attributes, enumerations and references of the frozen published models',
  T + 'touch about ten of 1641 classes.',
  ['CIM14', 'CIM15', 'Model'], [('class-level tables of attributes, types, defaults, enumerations and references', 'each class')]),
 ('M08', 'One-directional references and lists hold exactly what was put into them',
  'After any history of constructing, assigning, adding and removing, a one-directional reference or list of any class holds exactly the objects or compound values put into it, in that order; adding or removing several at once handles each of them. What it refers to, and everything else that refers to the same, is unaffected.',
  ['histories'], 'all 201 one-directional references and lists, all concrete subclasses, shared targets',
  T + 'use no one-directional reference.',
  ['CIM14', 'CIM15'], [('plain attributes and add_*/remove_* methods', 'e.g. CIM14/ENTSOE/Dynamics/Thing.py, CIM15/IEC61968/Common/Organisation.py')]),
 ('M09', 'Objects keep alive only what they are visibly linked to',
  'An object whose links have been taken away, by whatever public operations, is kept alive by nothing: not by former partners, lists or classes. A population that the caller drops is freed as a whole, whatever happened in it. Links are the only thing by which model objects hold one another.',
  ['histories', 'inputs'], 'arbitrary histories over populations of all classes of all models, and objects that have had every attribute and partner',
  T + 'never drop an object or look at what is still in memory.',
  ['CIM14', 'CIM15'], [('partners held only in the attributes behind the reference properties, cleared when unlinked', 'reference setters, add and remove methods of all classes, e.g. CIM15/IEC61970/Core/Terminal.py')]),
 ('M10', 'Holding one object holds everything it is linked with',
  'Whoever keeps one object of a model that was built or read, and drops the dictionary, the document and all other objects, still finds through its links every object it is linked with, directly or through others, each as it was: links keep their objects alive at both ends.',
  ['histories', 'inputs'], 'every class as the one kept or among those held, arbitrary histories, models built or read',
  T + 'keep the dictionary with all objects all the time.',
  ['CIM14', 'CIM15', 'PyCIM/RDFXMLReader.py'], [('links are references to the objects themselves', 'each property setter')]),
 ('M11', 'A copied or pickled model is an equal model of its own',
  'A model, or an object with all that it is linked with, that is copied in depth or pickled and loaded again (by any protocol, in the same or another process, whatever is imported first there) gives objects of the same classes with the same identifiers, values and links among themselves, in the same order. The copy and the original share nothing that can change, and each goes on as a model: operations on one, further reading into it and writing it leave the other as it was.',
  ['histories', 'inputs'], 'every class, populations after arbitrary histories, models built or read, all pickle protocols, fresh processes',
  T + 'never copy or pickle anything.',
  ['CIM14', 'CIM15'], [('the whole state of an object is in its own attributes', 'constructors and property setters of all classes, e.g. CIM15/Element.py, CIM15/IEC61970/Core/Terminal.py')]),
 ('M12', 'Models in separate threads do not disturb one another',
  'Threads that each build and change a model of their own, also of the same classes and by the same operations, while others do the same or read or write theirs, get exactly the models that each would get alone, whatever the interleaving of their operations, also within them. (The modules of the model have been imported before.)',
  ['schedules', 'histories'], 'every two-way association, mixed populations, 2-6 threads with switches at any line of the library',
  T + 'are single-threaded.',
  ['CIM14', 'CIM15', 'PyCIM/RDFXMLReader.py'], [('all state is in the objects themselves', 'constructors and property setters of all classes')]),
 ('R01', 'Reading gives one object of the right class for each identified element',
  'Reading a document yields exactly one object for each identified element of a known class, under that identifier, of exactly the published class of the profile in use, and with it as its own identifier. Elements of unknown classes yield nothing.',
  ['inputs'], 'all classes of all models and profiles, identifiers of any spelling, documents of any size',
  T + 'count the objects of one network and never look at their classes or identifiers.',
  ['PyCIM/RDFXMLReader.py'], [('first pass instantiates classes', 'PyCIM/RDFXMLReader.py cimread')]),
 ('R02', 'Values read have the stated value and the published type',
  'Every property value of an identified element is read with exactly the stated value: numbers as numbers in all their schema spellings, truth values in all their schema spellings, texts character for character, enumerations as their literal. Properties not stated keep their published default.',
  ['inputs'], 'every attribute of every class, all lexical forms, arbitrary texts, documents of one to very many parser chunks',
  T + 'never look at a single value that was read.',
  ['PyCIM/RDFXMLReader.py'], [('conversion by type of the default', 'PyCIM/RDFXMLReader.py second pass')]),
 ('R03', 'References read link exactly the stated objects at both ends',
  'A reference stated in a document links exactly the two objects it names, at both ends, whether it is stated once or repeatedly, from one end or both, and whether the referenced element stands before or after. The members of a list stand in the order in which the document states the links (where it states each once). References to absent objects establish nothing and disturb nothing.',
  ['inputs'], 'every association of every model, all placements and orders, graphs of any size and depth',
  T + 'never look at a reference that was read.',
  ['PyCIM/RDFXMLReader.py'], [('second pass resolves identifiers and uses properties/add methods', 'PyCIM/RDFXMLReader.py cimread')]),
 ('R04', 'Equivalent XML spellings give the same model',
  'Documents that are equivalent as XML give the same model: encoding, byte-order mark, namespace prefixes (with the namespace named by the caller), quoting, white space, comments, processing instructions, CDATA, character and entity references, identifier by definition or by description, and the order of elements and statements make no difference.',
  ['inputs'], 'all combinations of XML spellings of any model',
  T + 'read files of one tool in one spelling.',
  ['PyCIM/RDFXMLReader.py'], [('namespace-qualified matching on parser events', 'PyCIM/RDFXMLReader.py cimread, xmlns')]),
 ('R05', 'The kind of source makes no difference and is left as it was',
  'A document gives the same model from a path, a path object, an open binary or text file, memory, a compressed or spooled file, or any object that can be read and rewound, however few bytes each read returns. The document is unchanged, a caller\'s stream stays open, no file stays open otherwise, and results of different reads share no objects.',
  ['inputs', 'configurations', 'histories'], 'all kinds of sources, all chunkings, repeated reads',
  T + 'read by path, and one empty document from memory.',
  ['PyCIM/RDFXMLReader.py'], [('three passes with rewinding', 'PyCIM/RDFXMLReader.py cimread, xmlns')]),
 ('R06', 'The model version or profile used is the declared or requested one',
  'Without further arguments the version declared by the document decides the classes used (an unknown one is reported and read as the latest, a known one without report, and a document that declares none is reported and adds nothing); with an explicit class map (of any mapping type, also put together from several profiles or with classes of the caller) and namespace exactly those count. Giving only one of the two is an error and reads nothing.',
  ['inputs', 'configurations'], 'all known and arbitrary namespaces, all 16 models and profiles, narrowed maps',
  T + 'detect one version and use four profiles of one model.',
  ['PyCIM/RDFXMLReader.py', 'CIM14', 'CIM15'], [('version detection', 'PyCIM/RDFXMLReader.py get_cim_ns, cimread')]),
 ('R07', 'Reading several documents into one dictionary equals reading the whole',
  'Documents read one after the other into the same dictionary give the model all of them state together, as far as the objects were known when referred to. Objects already in the dictionary, read or built by the caller, stay the same objects and are described further, and an attribute value stated again by a later document replaces the earlier one, also one of another type that the caller gave it; the dictionary returned is the one given, of whatever kind, entries that are no model objects stay as they are, and without one nothing of an earlier read remains.',
  ['histories', 'inputs'], 'any split of any model into a sequence of documents, with further descriptions also under a base class; dictionaries of other kinds and with entries of the caller',
  T + 'merge four results without reading on top of one, so nothing that is already known is ever described further.',
  ['PyCIM/RDFXMLReader.py'], [('starting dictionary', 'PyCIM/RDFXMLReader.py cimread')]),
 ('R08', 'Reads and writes in concurrent threads do not disturb one another',
  'Threads that read documents, write models and pretty-print at the same time get exactly the results and reports they would get alone, also when these are the first reads of the process. The same holds for operations made from within another one in the same thread, by its stream, target or log handler.',
  ['schedules'], 'all interleavings of reads, writes and pretty-prints in 2-8 threads, warm and cold, and nested up to four deep in one thread',
  T + 'are single-threaded.',
  ['PyCIM/RDFXMLReader.py', 'PyCIM/RDFXMLWriter.py'], [('no module-level state but the import machinery, which is locked', 'PyCIM/RDFXMLReader.py import_lock')]),
 ('R09', 'A document that cannot be read completely is an error',
  'Reading a truncated or otherwise malformed document, or one whose stream fails at any point, raises an error and never returns a partial model. A malformed document leaves the objects already in the caller\'s dictionary untouched, and the intact document can be read afterwards.',
  ['inputs', 'fault_sequences', 'crash_points'], 'every truncation point, eleven kinds of corruption, a failure at every read and rewind',
  T + 'read only intact files.',
  ['PyCIM/RDFXMLReader.py'], [('complete first pass before anything is assigned; errors propagate', 'PyCIM/RDFXMLReader.py cimread')]),
 ('R10', 'Unknown content is left out, reported, and harms nothing else',
  'Elements and statements of foreign namespaces (also ones that resemble the model\'s), statements the model does not know (also under the names of methods or internals of the objects, or of their identifier), known properties in a form they cannot have (a reference to an object for an attribute, a text or a plain value for a reference), elements of unknown classes and references to them leave everything else of the document as it would be read without them. Each unknown class, unknown property (per class, with the number of occurrences), unfitting statement and unresolved reference is reported through the log, and a document without any is read without a warning.',
  ['inputs'], 'foreign and unknown content of any kind at any place in any model',
  T + 'contain no unknown content and look at no report.',
  ['PyCIM/RDFXMLReader.py'], [('skipping with grouped error reports', 'PyCIM/RDFXMLReader.py cimread')]),
 ('R11', 'Reading holds on to a bounded part of the document',
  'While a document is read, the number of parsed elements kept alive stays bounded however many elements the document has, and none is kept when reading is finished. Apart from the objects, the memory needed at once is bounded too: it does not grow with the length of the document.',
  ['inputs'], 'documents of tens of thousands of elements of several shapes',
  T + 'do not observe memory.',
  ['PyCIM/RDFXMLReader.py'], [('clearing the root element while iterating', 'PyCIM/RDFXMLReader.py cimread')]),
 ('R12', 'A text that is no number never becomes a numeric value',
  'If the text stated for a numeric property is not a number of its type, reading fails or leaves the property as it was: with the value stated earlier, in this or an earlier document, or at its default; no other value appears, and later reads are unaffected.',
  ['inputs'], 'every numeric property of every class, arbitrary non-numeric texts',
  T + 'read only numbers.',
  ['PyCIM/RDFXMLReader.py'], [('strict conversion by type of the default', 'PyCIM/RDFXMLReader.py second pass')]),
 ('R13', 'Reading, writing and pretty-printing retain nothing',
  'When a document has been read, a model written, or a document pretty-printed, or any of these has failed, every file opened by path is closed, and the library keeps neither the objects, the dictionary, the source, the target nor the writer alive, nor any of the names, identifiers, texts and paths it met: what a process uses does not grow with the number of documents it has handled.',
  ['histories', 'inputs', 'fault_sequences'], 'twelve kinds of use, successful and failing, of all models, with known, unknown and foreign content, repeated under ever new names',
  T + 'run each operation a few times and never look at what is left.',
  ['PyCIM/RDFXMLReader.py', 'PyCIM/RDFXMLWriter.py', 'PyCIM/SimpleXMLWriter.py', 'PyCIM/PrettyPrintXML.py'], [('no state outside of a call', 'PyCIM/RDFXMLReader.py cimread, xmlns; PyCIM/SimpleXMLWriter.py XMLWriter')]),
 ('R14', 'A document is data: reading it only reads it',
  'Whatever a document holds (external entities and document types, inclusions, style sheets and processing instructions, schema locations, names of modules, functions, files or addresses, code as text), reading or pretty-printing it opens nothing but the document, and that only for reading; it runs or imports nothing the document names, starts no process, makes no connection, and no content of another file appears in the result. Writing a model opens nothing but the target.',
  ['inputs'], 'documents of all models with hostile declarations, instructions, names and texts at all places, by path, file and stream',
  T + 'read benign files and do not observe what the process does.',
  ['PyCIM/RDFXMLReader.py', 'PyCIM/PrettyPrintXML.py'], [('classes by map only, values by type of the default, parser without external entities', 'PyCIM/RDFXMLReader.py cimread; PyCIM/PrettyPrintXML.py xmlpp')]),
 ('R15', 'Work grows in proportion to what is handled',
  'Reading a document (with known, unknown, foreign, repeated, dangling or no content; by stream or path; into an empty or full dictionary), writing a model, pretty-printing a document, using the XML writer, and building and linking objects with a bounded number of links each takes work in proportion to the size of what is handled, not to its square.',
  ['inputs'], 'documents of fourteen shapes and models of tens of thousands of elements, texts and call sequences of that size',
  T + 'read four documents of one size and measure nothing.',
  ['PyCIM/RDFXMLReader.py', 'PyCIM/RDFXMLWriter.py', 'PyCIM/SimpleXMLWriter.py', 'PyCIM/PrettyPrintXML.py'], [('lookup by dictionary, streaming, root cleared', 'PyCIM/RDFXMLReader.py cimread; PyCIM/SimpleXMLWriter.py XMLWriter')]),
 ('R16', 'An interrupted operation says so and disturbs nothing later',
  'If reading, writing or pretty-printing is interrupted by an exception (a keyboard interrupt, an exit, exhausted memory, an error of the caller\'s source, target, dictionary or log handler) where any function is entered, that exception reaches the caller. Objects and streams of the caller that the operation was not changing are as before, what has been written is the beginning of the complete document, and the same and any other operation, in this or another thread, gives its usual result and reports afterwards.',
  ['crash_points', 'fault_sequences'], 'an interruption at sampled ones of all calls in the library and to the caller during reads, writes and pretty-printing',
  T + 'never interrupt anything.',
  ['PyCIM/RDFXMLReader.py', 'PyCIM/RDFXMLWriter.py', 'PyCIM/PrettyPrintXML.py'], [('no handler for exceptions that are not its own, lock released, no state between operations', 'PyCIM/RDFXMLReader.py cimread; PyCIM/RDFXMLWriter.py cimwrite')]),
 ('W01', 'Writing a model and reading it back gives the same model',
  'Writing any model and reading the result gives the same objects with the same classes, identifiers, attribute values, enumerations and links. This holds for every class of every model and profile, for real networks, and generation after generation.',
  ['inputs'], 'all classes, attributes, references; arbitrary graphs and texts',
  T + 'write one network and never read it back.',
  ['PyCIM/RDFXMLWriter.py', 'PyCIM/RDFXMLReader.py', 'PyCIM/SimpleXMLWriter.py'], [('serialisation by class tables', 'PyCIM/RDFXMLWriter.py cimwrite')]),
 ('W02', 'The written document states exactly what the objects hold',
  'The document written holds exactly one element per object of the dictionary, of its class in the namespace of its model version and under its own identifier (whatever its key), and in it exactly one statement, qualified with the declaring class, for each attribute that differs from its default (truth values in their XML schema form), each enumeration value and each single reference, whether or not the object referred to is in the dictionary.',
  ['inputs', 'histories'], 'all classes of all models, arbitrary graphs, partial models, objects after arbitrary histories',
  T + 'only check that something is written.',
  ['PyCIM/RDFXMLWriter.py'], [('serialisation by class tables along the class hierarchy', 'PyCIM/RDFXMLWriter.py cimwrite')]),
 ('W03', 'Writing changes nothing and is reproducible',
  'Writing leaves the dictionary and all objects as they were, also those without an identifier. The output depends on the model alone: it is the same when written again, to another kind of target, after other models, in another process or hash seed, and after being read back; elements follow the order of the dictionary.',
  ['histories', 'configurations'], 'arbitrary models, targets, processes and generations',
  T + 'write once.',
  ['PyCIM/RDFXMLWriter.py', 'PyCIM/SimpleXMLWriter.py'], [('read-only traversal in dictionary and table order', 'PyCIM/RDFXMLWriter.py cimwrite')]),
 ('W04', 'What is reported as written is written; a failing target is an error',
  'When writing reports success, the complete document has reached the target: a file holds it entirely (and nothing of a previous longer file), even if the process ends at once. A target that fails at any point, cannot be opened, or runs out of space makes writing fail with that error, and leaves the model usable.',
  ['fault_sequences', 'crash_points'], 'a failure at every write and flush; file size limits at arbitrary bytes; full device; exit directly after return',
  T + 'write to one healthy target.',
  ['PyCIM/RDFXMLWriter.py', 'PyCIM/SimpleXMLWriter.py'], [('final flush, errors propagate', 'PyCIM/RDFXMLWriter.py cimwrite; PyCIM/SimpleXMLWriter.py')]),
 ('W05', 'Text survives in every encoding, whatever the environment',
  'Texts and identifiers of any characters XML can express come back unchanged from documents written in any supported encoding, and the bytes written by path do not depend on the locale or interpreter settings. A document declared as ASCII holds only ASCII.',
  ['inputs', 'configurations'], 'arbitrary texts, nine encodings, six environments, four kinds of target',
  T + 'write ASCII data in one environment.',
  ['PyCIM/SimpleXMLWriter.py', 'PyCIM/RDFXMLWriter.py'], [('escaping and character references', 'PyCIM/SimpleXMLWriter.py escape_cdata, escape_attrib, XMLWriter')]),
 ('W06', 'Writing passes the document on as it goes',
  'While a model is written, to a stream, an open file or a path, and likewise while the XML writer is called, the text is passed on to the target as it comes about: the memory taken at once does not grow with the length of the document (beyond a fraction of a list of the objects), and none of it stays behind.',
  ['inputs', 'histories'], 'models of thousands of objects of several shapes, tens of thousands of writer calls',
  T + 'do not observe memory.',
  ['PyCIM/SimpleXMLWriter.py', 'PyCIM/RDFXMLWriter.py'], [('passing on of what is written', 'PyCIM/SimpleXMLWriter.py XMLWriter.__init__, __flush, end'), ('writing object by object', 'PyCIM/RDFXMLWriter.py cimwrite')]),
 ('X01', 'Any sequence of XML writer calls gives a document with that content',
  'Whatever sequence of start, data, element, end, close, comment and declaration calls is made, the output is well-formed and holds exactly the elements, attributes (given as dictionary, as keywords or both), texts and comments of the calls, each in its place. The caller\'s dictionaries are not changed.',
  ['histories', 'inputs'], 'arbitrary call sequences, texts, attributes, encodings and targets',
  T + 'use the XML writer only through one serialised network.',
  ['PyCIM/SimpleXMLWriter.py'], [('open-tag state, buffered data, escaping', 'PyCIM/SimpleXMLWriter.py XMLWriter')]),
 ('X02', 'The XML writer keeps elements nested and refuses calls that would not',
  'Ending an element when none is open or under a name other than that of the innermost open one is refused without output, and the document can be completed afterwards. Closing by identifier ends exactly that element and everything inside it; several writers do not affect one another.',
  ['histories'], 'arbitrary call sequences with mistaken calls interspersed',
  T + 'make no mistaken call and never close by identifier except for the root.',
  ['PyCIM/SimpleXMLWriter.py'], [('stack of open tags', 'PyCIM/SimpleXMLWriter.py XMLWriter.end, close')]),
 ('E01', 'How the interpreter and the process are set up makes no difference',
  'Building and linking objects, reading, writing, the XML writer (also what it refuses) and pretty-printing give the same results whatever the options of the interpreter (optimised, development mode, isolated, warnings shown or made errors, hash seed, cached bytecode), the environment (locale, encodings, no variables, directory, user, closed standard streams, few file descriptors, umask, time zone, clock), the place of the library (directory, link, archive) and the state of the process (threads with small stacks, event loops, tracing, profiling, garbage collection off or eager, logging at any level).',
  ['inputs', 'configurations'], 'some forty settings, random parts of all other properties in each',
  T + 'run in one setting, that of the test runner.',
  ['PyCIM', 'CIM14', 'CIM15'], [('checks are statements, not assertions; files opened with a stated encoding; nothing depends on streams, directory or clock', 'PyCIM/SimpleXMLWriter.py XMLWriter; PyCIM/RDFXMLReader.py cimread; PyCIM/RDFXMLWriter.py cimwrite')]),
 ('P01', 'Pretty-printing changes white space between elements and nothing else',
  'Pretty-printing a document keeps every element, attribute, value and non-blank text, puts children that have no text around them on lines of their own indented by two blanks per level, gives the same result when applied again, and leaves its source unchanged. A model document read after pretty-printing gives the same model.',
  ['inputs'], 'arbitrary element trees with and without mixed content, model documents, real networks',
  T + 'do not call the pretty printer.',
  ['PyCIM/PrettyPrintXML.py'], [('recursive indentation of blank texts and tails', 'PyCIM/PrettyPrintXML.py indent, xmlpp')]),
]
TECH = {
 'M01': 'reference-model monitor over random operation histories', 'M02': 'reference-model monitor over random operation histories',
 'M03': 'state monitor over generated constructions', 'M04': 'whole-population frame monitor over random histories',
 'M05': 'monitored imports in clean processes, all first imports and random orders', 'M06': 'reference-model monitor over random histories',
 'M08': 'reference-model monitor over random histories',
  'M12': 'reference-model monitor in each thread under a seeded scheduler at library lines',
 'M11': 'reference-model monitor next to copies', 'E01': 'monitors of the other properties under varied interpreter and process settings',
 'M10': 'reference-model monitor of what is reachable after collections',
 'M09': 'heap monitor (weak references) over random histories',
 'R13': 'heap, descriptor and weak-reference monitors over repeated uses and faults', 'R14': 'interpreter audit-event monitor over hostile documents',
 'R15': 'processor-time growth monitor', 'R16': 'interruption injection at calls, state and serial-equivalence monitors',
 'M07': 'runtime conformance monitor against the frozen published model', 'R01': 'differential monitor over generated documents',
 'R02': 'differential monitor over generated values and spellings', 'R03': 'graph monitor over generated documents and real data',
 'R04': 'metamorphic monitor over XML spellings', 'R05': 'metamorphic monitor over sources, with resource tracking',
 'R06': 'differential monitor over namespaces and profiles, log capture', 'R07': 'trace monitor over document sequences',
 'R08': 'concurrency stress with serial-equivalence oracle', 'R09': 'fault injection at every read and byte, state monitor',
 'R10': 'noise injection with model and log monitors', 'R11': 'heap sampling and peak memory monitors during reads', 'R12': 'state monitor over hostile values',
 'W01': 'round-trip monitor over generated graphs and real data', 'W02': 'independent statement-level oracle on written documents',
 'W03': 'purity and reproducibility monitors, cross-process', 'W04': 'fault injection at every write, byte limits, exit right after return',
 'W05': 'round-trip and byte monitors over encodings and environments', 'W06': 'peak memory monitor (allocation tracing) during writes and writer calls', 'X01': 'infoset monitor over random call sequences',
 'X02': 'protocol monitor with mistaken calls', 'P01': 'content, layout and idempotence monitors over generated trees',
}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for i, title, st, over, q, why, files, mech in P:
            assert len(title) <= 80, title
            f.write(json.dumps(dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))) + '\n')
    man = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import json; json.load(open(\'spec/spec.json\'))"',
               checks=[dict(property=p[0], quick_cmd='bin/check %s quick' % p[0], thorough_cmd='bin/check %s thorough' % p[0],
                            technique=TECH[p[0]], level='exploration',
                            level_note='oracle observes seeded executions of the real code; bounds and observed counts in the evidence file')
                       for p in P],
               not_applicable=[])
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
