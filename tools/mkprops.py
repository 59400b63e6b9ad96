#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Saving and reloading a document preserves it",
 "For every document, whether loaded from XML or built through the API, serialising it to XML at any indentation and loading the result gives an equivalent document: the same elements in the same order and nesting, each with the same attributes, resolved set, class, subset and processor, and the same text and comments. (Adjacent pieces of text count as one; comments, and text outside text content, that are blank are not kept.)",
 ["inputs","histories"],"every document over a bounded alphabet of element types, attributes, values, texts and nestings, and every document that a bounded sequence of API operations builds; indentation 0, 1, 2 and 4",
 "The tests serialise two example documents and compare nothing but the absence of an error; which attribute, element type, or order of content is lost depends on the input.",
 ["src/serialiser.rs","src/parser.rs","src/document.rs","src/attrib.rs"],
 [("serialisation walks the tree in document order, omitting default sets and processors","src/serialiser.rs xml_elements"),("parsing re-derives what was omitted from the declarations","src/document.rs Store<ElementData>::encode")],
 ["Document::xml","Document::from_str","ReadElement"])
p("C02","Serialised XML is well-formed and says what the document holds",
 "For every document whose comments can be expressed in XML, serialisation succeeds and yields namespace-well-formed XML that, read by any conforming XML parser, contains exactly the elements, attributes, sets, classes, processors, text and comments of the document, with special characters escaped, and states the version of FoLiA it is in. Indentation adds no text anywhere it matters, and serialising a single element gives exactly that element with everything under it.",
 ["inputs","configurations"],"every document of the bounded space, every element of it as the root to serialise, indentation 0, 1, 2 and 4, texts and attribute values over an alphabet with all XML metacharacters",
 "The tests never look at serialised output; a round trip through the library's own parser cannot notice an error that both halves share.",
 ["src/serialiser.rs","src/element.rs","src/attrib.rs"],
 [("escaping of text and attribute values","src/serialiser.rs"),("end tag stack driven by the depth of the selection","src/serialiser.rs xml_elements"),("suppression of indentation in text","src/serialiser.rs suppress_indent")],
 ["Document::xml","ReadElement::xml"])
p("C03","Loading a document yields exactly what its XML says",
 "Loading a FoLiA document gives precisely the elements, order, nesting, attributes, text and comments that its XML expresses, independently of how the XML is written: quoting, entities, CDATA, namespace prefixes, empty tags or tag pairs, attribute order. Each annotation gets the set, class and processor that its attributes and the declarations determine: explicit ones win, set aliases resolve to their set, otherwise the only declared set and the only declared annotator of its annotation type apply; features and classes of elements that are not annotations themselves belong to the set of the annotation around them.",
 ["inputs"],"every document of a bounded grammar: all element types, all attributes, all declaration patterns up to three declarations, and all lexical variants of each",
 "The tests load a few documents in one style of XML with one declaration per type.",
 ["src/parser.rs","src/document.rs","src/attrib.rs","src/types.rs"],
 [("event loop with an element stack","src/parser.rs parse_elements"),("attribute decoding","src/attrib.rs Attribute::parse"),("resolution against declarations","src/document.rs encode, declare")],
 ["Document::from_str","ReadElement"])
p("C04","Document header information is read completely and survives saving",
 "The document ID, body type, declarations (order, annotation type, set, alias, format, annotators), the provenance chain (every processor with all its fields, nesting and own metadata), native metadata, references to external metadata, and submetadata are loaded exactly as the XML states them, in whatever form it is written, and are unchanged after saving and reloading. The FoLiA version of a loaded document is the one its XML states.",
 ["inputs","configurations"],"every header of a bounded grammar: all 58 declaration types, all combinations of optional attributes, all processor forests up to 4 nodes, metadata in every place it may occur, in every lexical form",
 "The tests load headers with a handful of declarations and processors and check a few counts.",
 ["src/parser.rs","src/serialiser.rs","src/metadata.rs"],
 [("header event loop","src/parser.rs parse"),("header serialisation","src/serialiser.rs xml_metadata, xml_declarations, xml_provenance, xml_processor")],
 ["Document fields","Document::declarations","Document::get_processor"])
p("C05","Elements always form a tree",
 "After any sequence of operations that add, build, attach, detach or annotate elements, or of loading a document, every element has at most one parent; a parent lists a child exactly once precisely if the child names it as its parent; and no element is its own ancestor. New children come last in their parent, a moved element is no longer under its old parent, and all else stays in place.",
 ["histories"],"every sequence of operations up to a bounded depth over a bounded set of elements, including nested builders, moves, self- and cyclic attachments, and operations on orphans",
 "Tests perform one or two additions on a fresh document; the property is about every history of modifications.",
 ["src/document.rs","src/element.rs","src/parser.rs"],
 [("attach_element/detach_element keep both directions in step","src/document.rs"),("insert_element links nested children","src/document.rs")],
 ["ReadElement::parent_key","ReadElement::get_parent","ReadElement::get_index","get_data_at"],
 [("parent","key of the parent","src/element.rs ElementData"),("data","children in order","src/element.rs ElementData")])
p("C06","An ID resolves to the one element that carries it",
 "At every moment in the life of a document, looking up an ID gives exactly the element that was added with that ID, and nothing for any other string; no two elements have the same ID, because adding or loading an element with an ID that is already in use is refused. Two handles of elements of a document are equal exactly if they are handles of the same element.",
 ["histories","inputs"],"every bounded sequence of additions, nested additions, moves, detachments and annotations with colliding IDs, and every bounded document with any assignment of IDs",
 "Tests look up IDs in one document without collisions.",
 ["src/document.rs","src/store.rs","src/parser.rs"],
 [("index maintained on addition","src/store.rs Store::add"),("uniqueness checks","src/document.rs check_new_elements; src/parser.rs")],
 ["Document::get_element_by_id","Document::get_element_key_by_id"])
p("C07","A refused modification leaves the document unchanged",
 "Whenever an operation that adds, attaches, detaches or annotates elements, or attaches processors, returns an error, the document is what it was before: the same elements in the same places, the same IDs, back-references, declarations and processors, and the same XML.",
 ["fault_sequences","histories"],"in every state reached by a bounded sequence of operations, every operation of the alphabet, including each way in which it can be refused (nonexistent key, duplicate ID, cycle, content that is not allowed, missing target, failing descendant in a nested builder)",
 "Tests check that a call fails, never what it left behind.",
 ["src/document.rs"],
 [("validation before modification","src/document.rs check_new_element, check_children_addable, annotate, attach_element, attach_processor")],
 ["whole document, including Document::xml"])
p("C08","Annotating puts an annotation where FoLiA allows it, in the right layer",
 "Annotating an element adds exactly one annotation (and its nested content), only where the FoLiA schema accepts it, and refuses it otherwise. A span annotation goes into the layer for its annotation type and set under the structure element it is added to or, if added through the words it spans, under the closest structure element that contains all of those words and may hold such a layer; an existing layer of that type and set there is reused and a new one is made only if there is none.",
 ["histories","inputs"],"all pairs of element types for inline annotation; all span types, sets, targets and word combinations over a bounded document, in all sequences of up to a bounded number of annotations",
 "Tests add an entity or two; the accepted combinations and the choice of the layer depend on type, set, location and what was added before.",
 ["src/document.rs","src/select.rs","src/specification.rs"],
 [("annotate, annotate_span, get_layer_key","src/document.rs"),("common_ancestors","src/select.rs"),("schema tables","src/specification.rs")],
 ["Document::annotate","Document::annotate_span"])
p("C09","Words know the span annotations that refer to them",
 "In every document, loaded or built, an element refers back to a span annotation exactly if that annotation contains a word reference to it (directly or in a part of it such as a head, but not by way of a nested span annotation), whatever the order of words and annotations in the document. Such a reference must have an existing target and be part of a span annotation, or else the document or modification is refused; resolving it gives the target.",
 ["inputs","histories"],"every bounded document with words and (nested) spans in every order and with every assignment of references, and every bounded sequence of additions of spans",
 "Tests have one document in which annotations follow the words.",
 ["src/document.rs","src/parser.rs"],
 [("back-references after adding","src/document.rs post_add"),("forward references resolved after loading","src/parser.rs parse_elements")],
 ["DataType::SpanReference","ReadElement::resolve","select with span references"])
p("C10","A selection yields every matching item once, in document order",
 "Selecting under any element yields exactly the items under it that match the selector, in document order and each once, descending precisely where the recursion policy says so; the element itself is included only on request, span annotations that refer to a word are visited from that word only on request and never twice, and a union of selectors matches what any of its members matches. The shortcuts for the elements (or annotations) of one type and set yield those, and the ones for a single element the first of them. Parent, position and depth that are reported with an item are right.",
 ["inputs","configurations"],"every root element of every tree up to a bounded size, all recursion policies, all combinations of data types, inclusion and span reference options, and unions of up to three selectors",
 "Tests count the results of a few selections in one document.",
 ["src/select.rs","src/element.rs","src/document.rs"],
 [("SelectIterator: depth-first traversal with explicit stack and deduplication","src/select.rs")],
 ["SelectData","SelectElements","SelectItem"])
p("C11","A query matches an element exactly if all its criteria hold",
 "An element matches a query exactly if it meets every criterion: element type, element group, set, class, subset, processor, annotator, annotator type and confidence, each of which may be any, some, none or a particular value. A set, class, subset or processor that does not occur in the document matches nothing, a class without a set refers to the only declared set of its type, and a query that is ambiguous is refused rather than answered wrongly.",
 ["inputs","configurations"],"all combinations of criteria, each over its absent, any, some, none, present value and absent value, against every element of documents with every combination of declared sets, classes, features and processors",
 "Tests run a handful of queries with one or two criteria.",
 ["src/query.rs","src/select.rs","src/element.rs"],
 [("encoding of a query","src/select.rs Selector::from_query"),("matching","src/select.rs Selector::matches, src/query.rs Cmp::matches")],
 ["Selector::from_query","Selector::matches","Element::get_annotation(s)","Element::get_element(s)"])
p("C12","Ancestors and common ancestors are exact",
 "The ancestors of an element are exactly the elements on the path from its parent to the root that match the selector, nearest first; the common ancestors of several elements are exactly the ancestors that all of them share, nearest first.",
 ["inputs","histories"],"every element, and every tuple of up to three elements, of every tree up to a bounded size, for every type, group and set of the alphabet, including orphans and moved elements",
 "Tests ask one element for its ancestors, and two words for one common ancestor.",
 ["src/select.rs","src/element.rs"],
 [("AncestorIterator, common_ancestors","src/select.rs"),("get_ancestor(s), get_ancestor(s)_by_group","src/element.rs")],
 ["Document::ancestors_by_key","Document::common_ancestors","Element::get_ancestors"])
p("C13","Text of an element is that of its parts with the right delimiters",
 "The text of an element is the text of its parts in document order, joined with the delimiters that FoLiA prescribes for their types (none after a word that is marked as having no space after it, unless tokenisation is to be retained), or else the element's own text content. Only text of the requested class and set counts; corrections give their new or current text, span annotations the words they refer to, and hidden or non-printable parts nothing; an element without any such text is reported as having none, and circular references never hang.",
 ["inputs","configurations"],"every tree up to a bounded size over structure, words, spans, corrections, text content with markup, in all text classes, space settings and text parameters, against a reference semantics of FoLiA text",
 "Tests ask for the text of a few words and sentences in one document.",
 ["src/text.rs","src/element.rs","src/specification.rs"],
 [("text_by_class, get_textdelimiter","src/text.rs")],
 ["Element::text","Document::text","Document::text_by_key"])
p("C14","Declarations and classes are stored once and resolve consistently",
 "Declaring an annotation type and set is idempotent: the same type and set (or alias of the set) always give the same declaration, different sets give different ones, and leaving the set out gives the only declaration there is of that type. A type is reported to have a default set exactly while it has a single declaration; classes, subsets and feature classes get stable keys per declaration, that always decode to the same value and are never shared between different values.",
 ["histories"],"every sequence, up to a bounded depth, of declaring types and sets and aliases, adding classes and adding annotations with explicit or absent sets, including the properties a document is created with, compared with a reference store after every step",
 "Tests declare one or two sets; whether the default still applies depends on the whole history.",
 ["src/document.rs","src/metadata.rs","src/store.rs"],
 [("declare","src/document.rs"),("DeclarationStore::default_mask/get_default_key, Declaration::add_class/add_subset/add_subclass","src/metadata.rs")],
 ["Document::declare","Document::get_default_set","Document::class_key","ReadElement::set/class"])
p("C15","Annotations are attributed to the right processor; provenance stays a forest",
 "An annotation is attributed to the processor it names, else to the active processor, else to the only annotator its declaration has, and the declaration lists every processor that was used so; loading a document changes no attributions. Every processor occurs exactly once in the provenance, either in the chain or under one parent, in the order in which they were added, and never as part of itself.",
 ["histories","configurations"],"every bounded sequence of adding, nesting, attaching and activating processors, declaring and annotating, compared with a reference model after every step",
 "Tests create one processor and one annotation.",
 ["src/document.rs","src/metadata.rs","src/parser.rs"],
 [("add_processor, add_subprocessor, attach_processor, activate_processor, encode","src/document.rs")],
 ["ReadElement::processor/annotator/annotatortype","ProvenanceStore::chain","Processor::processors/parent"])
p("C16","Features are found by subset with the right class, in the right set",
 "The features of an annotation are exactly the features directly under it, in order, with the subset and class they were given, whether as elements or in the attribute shorthand, when loaded or built; requesting a subset yields those of that subset and no others. Feature classes and subsets are kept per set, apart from the ordinary classes of that set and from those of other sets and annotation types.",
 ["inputs","histories"],"all combinations of up to three features over subsets, classes, sets and annotation types that share and do not share names, as elements, shorthand attributes or through the API",
 "Tests ask one annotation for one feature.",
 ["src/element.rs","src/document.rs","src/parser.rs","src/metadata.rs"],
 [("get_features, get_feature","src/element.rs"),("shorthand attributes","src/parser.rs parse_attributes"),("subset and subclass stores","src/metadata.rs")],
 ["Element::get_features","Element::get_feature","ReadElement::subset/class"])
p("C17","Damaged input is rejected with an error, never with a crash or half a document",
 "Loading any input terminates with a document or an error and never panics. A document that is cut off anywhere before its end is always refused, as are mismatched tags, elements that FoLiA does not know, attributes of elements that it does not know, invalid attribute values, and duplicate IDs.",
 ["inputs","fault_sequences"],"every truncation, every single-byte deletion, replacement by each byte of an alphabet and insertion, of a corpus of documents that together use every construct; every token-level deletion, duplication and swap",
 "Tests only load valid documents.",
 ["src/parser.rs","src/attrib.rs","src/error.rs"],
 [("error paths of the parser","src/parser.rs"),("attribute decoding","src/attrib.rs Attribute::parse")],
 ["Document::from_str","Document::from_file"])
p("C18","The FoLiA vocabulary is coherent and complete",
 "Every element type and annotation type has its own FoLiA name and reading that name gives the type back; the layer, primary element, groups, allowed content, text delimiter and other schema properties of each are those of the FoLiA 2 specification, and the different tables that state the same fact agree.",
 ["configurations"],"all 119 element types, 58 annotation types, 11 groups, all pairs of types",
 "Tests touch a dozen types; a slip in one row of generated tables shows only when that type is used.",
 ["src/types.rs","src/specification.rs"],
 [("generated tables","src/types.rs, src/specification.rs")],
 ["ElementType","AnnotationType","ElementGroup","Properties"])
p("C19","Attributes keep their type and value, one per type",
 "Every FoLiA attribute in XML is read as the attribute of its type with exactly its value, and written back under the same name with an equivalent value; values that are not valid for it are refused. On an element under construction, setting an attribute replaces any of the same type, deleting removes and returns just that one, and reading gives what was last set; asking an element that holds keys for names, or the other way around, is refused.",
 ["inputs","histories"],"all attributes, over values of every category (including boundary numbers, times, booleans in every notation, and characters that need escaping), and all sequences of up to a bounded number of attribute edits",
 "Tests use a handful of attributes with one value each.",
 ["src/attrib.rs","src/element.rs"],
 [("Attribute::parse, to_string, attribtype","src/attrib.rs"),("set_attrib, del_attrib, attrib, has_attrib","src/element.rs")],
 ["Attribute","ElementData"])
p("C20","Every read operation terminates without a crash on every document",
 "On any document that can be loaded or built, however wide, cyclic in its references or strangely composed, and nested a thousand levels deep, reading operations (selecting, getting text, attributes, ancestors, features and annotations, resolving references, serialising) terminate with a result or an error, and never panic or exhaust the stack.",
 ["inputs","configurations"],"every pair and triple of nested element types with every reading operation, deep and wide documents at several sizes per shape, and all small patterns of references between spans and words, including circular ones",
 "Tests read small and sane documents.",
 ["src/select.rs","src/text.rs","src/element.rs","src/serialiser.rs"],
 [("iterative traversal","src/select.rs SelectIterator"),("reference guard","src/text.rs")],
 ["all public reading methods"])
p("C21","Stores hand out dense, stable, unique keys and refuse to overflow",
 "Adding to any store (elements, declarations, processors, classes, subsets) gives the next free key, or the existing key if the item is identified by what is already in it; a key or identifier retrieves the very item it was given for, for as long as the store lives, and unknown ones retrieve nothing. When the key space is full, adding is refused with an error, with nothing changed and no key reused.",
 ["histories","configurations"],"every bounded sequence of additions and lookups on a store with small keys, compared with a reference map, and the boundary of every key width that can be reached",
 "Tests never fill a store.",
 ["src/store.rs","src/metadata.rs","src/elementstore.rs"],
 [("Store::add, get, id_to_key; StringStore::add, get, get_key","src/store.rs")],
 ["Store","StringStore"])
p("C22","What is built is what is held",
 "A processor, element or document built through the builder functions holds exactly what each call gave it: a setter changes its own field (the last call wins) and nothing else, contents come in the order in which they were given and can be found, indexed and removed as such, and a document made or loaded with certain properties has the body type, ID, file name, declarations, provenance and active processor that follow from them, and still has them after saving and loading.",
 ["histories","configurations"],"all sequences of builder calls up to a depth, over every setter of a processor, every operation on the contents of an element under construction, and every property of a document, new or loaded from several headers",
 "Tests build a few objects, each in one order, and look at a few of their fields.",
 ["src/metadata.rs","src/element.rs","src/document.rs"],
 [("Processor::with_*, autofill, this_library","src/metadata.rs"),("ElementData::with*, push, add_element, remove, index","src/element.rs"),("DocumentProperties, Document::new, apply_properties","src/document.rs")],
 ["fields of Processor","ElementData::get_data_at, index, len","Document::id, filename, declarations, get_processor"])
p("C23","The command-line tools do to each file what they say",
 "folialintr prints, for each file it is given and in order, the XML of the document in it (as saved with an indentation of four), or reports why it can not be loaded, and a bad file does not keep the other files from being treated; foliabenchmarkr runs each requested test on each file, in order, reports it under its name and that of the file, counts the words of the document in its select test, and reports tests that it does not know.",
 ["inputs","configurations"],"all sequences of up to a number of files, good and bad in various ways, and all sequences of tests",
 "No test runs the programs.",
 ["src/bin/folialintr.rs","src/bin/foliabenchmarkr.rs"],
 [("main","src/bin/folialintr.rs"),("main, test, Measurement","src/bin/foliabenchmarkr.rs")],
 ["standard output and standard error of the programs"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), [x['id'] for x in P if len(x['title'])>80])
