H = "explicit-state search over operation histories on the real code, checked step by step against a reference model"
F = "exhaustive enumeration of bounded inputs on the real code"
MORE = {
 "C05": (H + " of the element tree", "All histories of the operations in edit.rs up to the depth in the evidence, from several start documents; trusts the observation through the public API."),
 "C06": (H + " of the identifier index", "All histories of the operations in edit.rs up to the depth in the evidence."),
 "C07": (H + " (refused operations leave every observable as it was)", "All histories up to the depth in the evidence, with every operation that can be refused in every state; nested additions that overflow a key space are a known finding (C21)."),
 "C08": (H + " (a prediction of where annotate puts things)", "All histories up to the depth in the evidence."),
 "C09": (H + " of span references", "All histories up to the depth in the evidence, and all small patterns of word references in loaded documents; moved word references are a known finding."),
 "C10": (F + ": every selection in every document of the families, against a naive traversal", "All documents of the families, selectors and recursion policies in the evidence."),
 "C11": (F + ": every query against every element, by definition of its parts", "All combinations of the parts of a query, on documents that hold every kind of element."),
 "C12": (F + ": the ancestors of every element, and the common ancestors of every tuple of elements, of every small document, against a naive computation", "All documents of the families and all pairs (thorough: triples) of their elements."),
 "C13": (F + ": the text of every element of every document built from a set of parts, against a reference reading of the text", "All documents of up to a bounded number of parts."),
 "C14": ("explicit-state search over histories of declarations and annotations, against a reference model of declarations", "All histories up to the depth in the evidence."),
 "C15": ("explicit-state search over histories of provenance operations, against a reference model of the processor forest", "All histories up to the depth in the evidence, from several start documents."),
 "C16": (F + ": all combinations of defaults, aliases, annotators and processors, against reference semantics", "All combinations of the parts in the evidence."),
 "C17": ("exhaustive fault injection: every truncation, token deletion, duplication, exchange and byte corruption of a set of documents, on the real loader", "All single faults (thorough: pairs of tokens) in the documents of the set."),
 "C18": ("exhaustive enumeration of the vocabulary and of strings that are not in it", "Complete for the tables; strings up to a bounded length."),
 "C19": ("exhaustive enumeration of attributes and values, and of histories of attribute edits next to a reference list", "All attributes and the values of the evidence; all histories up to the depth in the evidence."),
 "C20": (F + ": every public accessor, conversion and selection, with every key, in and out of range, on every document of the families", "All documents of the families, all single calls, and (thorough) all pairs and triples of editing calls; calls documented to panic are left out."),
 "C22": ("explicit-state search over histories of builder calls on the real code, next to a reference record", "All histories up to the depth in the evidence; what autofill() takes from the environment is only checked to be there."),
 "C23": ("exhaustive exploration of the real programs, run as processes on all bounded sequences of files and tests, next to what the library makes of each file", "All sequences up to the lengths in the evidence; times and memory that foliabenchmarkr reports are not judged."),
 "C21": ("explicit-state search over histories of additions on the real store code, at and around the end of the key space, next to a reference list", "Element and class keys (u32) are not filled; the same generic code is, with u8 and u16 keys."),
}
