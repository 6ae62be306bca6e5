NA = {}
DOCS = ("Trusts the reference in harness/docs (what each format carries, written from the SPDX specification) and the value alphabets; "
        "values outside the alphabets and combinations of more than two deviations are not explored.")
check("P04", "exploration", "bounded exhaustive enumeration of documents (all one- and two-site deviations), write-read on the real code against a reference model",
      "Every document of the bounded space is written as tag-value and read back by the real code. " + DOCS)
check("P05", "exploration", "bounded exhaustive enumeration of documents and write options, write-read on the real code against a reference model",
      "Every document of the bounded space is written as JSON with every combination of options and read back by the real code. " + DOCS)
check("P07", "exploration", "bounded exhaustive enumeration of documents, write-read on the real code against a reference model and JSON",
      "Every document of the bounded space is written as YAML and read back by the real code. " + DOCS)
check("P08", "exploration", "bounded exhaustive enumeration of documents, every pair of formats on the real code",
      "Every document of the bounded space is carried through every pair of formats. " + DOCS)
check("P09", "exploration", "bounded exhaustive enumeration of documents and conversion histories on the real code against a field-wise reference",
      "Every document of the bounded space is converted to every other version and back. " + DOCS)
check("P01", "exploration", "bounded exhaustive enumeration of line sequences, texts and chunkings on the real reader against a reference line machine",
      "Every text of the bounded space is read by the real code under every chunking. Trusts the reference line machine in harness/checks/p01.go.")
check("P02", "model_checking", "explicit-state exploration of a model of the tag-value section machine, every transition replayed on the real reader",
      "Every reachable model state (up to the bound) times every tag is replayed against the real reader and the whole document compared. Trusts the model in harness/checks/tvmodel.go.")
check("P03", "model_checking", "explicit-state exploration of a model of the tag-value section machine, every malformed tag injected in every state on the real reader",
      "Every reachable model state times every malformed tag is replayed against the real reader. Trusts the model and the list of malformed values in harness/checks/tvmodel.go.")
check("P06", "exploration", "bounded exhaustive enumeration of shorthand and relationship combinations on the real code against a reference",
      "Every combination of the bounded space is read by the real code. Trusts the reference in harness/checks/p06.go.")
check("P11", "exploration", "bounded exhaustive enumeration of identifier strings in every place on the real code against a grammar",
      "Every string of up to four fragments in every place of a document. Trusts the grammar in harness/checks/p11.go.")
check("P10", "exploration", "bounded exhaustive enumeration of versions, contents and targets on the real readers",
      "Every stated version, content kind, target kind and reader is tried in every combination of the bounded space on the real code.")
check("P12", "exploration", "bounded exhaustive enumeration of damaged, composed and token-built texts on the real readers",
      "Every text of the bounded space is read by every reader into every kind of target; panics, fatal errors of the runtime, executions over 60 s and unbounded memory are violations. Says nothing about what was read.")
check("P13", "fault_enumeration", "exhaustive fault injection: an error at every byte offset and every chunking of the source, on the real readers",
      "Every failing offset and every chunking of the reference documents is tried on the real readers.")
check("P14", "fault_enumeration", "exhaustive fault injection: a failure at every write call and after every accepted byte, on the real writers",
      "Every write call and every byte offset of every output is made to fail, permanently, once, and by shortening.")
check("P19", "exploration", "bounded exhaustive enumeration of directory trees, root spellings and contents on the real builder against a reference walk",
      "Every tree of the bounded space is created in a scratch directory and built by the real code; digests are computed independently.")
check("P20", "exploration", "bounded exhaustive enumeration of pattern sets and paths on the real code against a reference matcher",
      "Every pattern set of the bounded space is tried on every path through the matcher, the file walk, the builder and the searcher.")
check("P21", "exploration", "bounded exhaustive enumeration of file lists and permutations on the real code against a reference",
      "Every file list of the bounded space is hashed by the real code and by a reference.")
check("P24", "exploration", "bounded exhaustive enumeration of package pairs and file orders on the real code against a reference",
      "Every pair of packages of the bounded space is compared by the real code and a reference.")
check("P26", "exploration", "bounded exhaustive enumeration of documents and orders on the real validation against a reference",
      "Every document of the bounded space is validated by the real code and a reference.")
check("P27", "exploration", "bounded exhaustive enumeration of documents, filters and identifier lists on the real code against a reference",
      "Every document of the bounded space is asked for its described packages, and every filter applied, by the real code and a reference.")
check("P23", "exploration", "bounded exhaustive enumeration of identifier lines, line sequences, trees and search patterns on the real searcher against expectations by construction",
      "Every line of the product alphabet, every sequence of core lines and every small tree with every pattern is searched by the real code; what is expected is known from how the line was put together.")
check("P28", "exploration", "bounded exhaustive enumeration of trees, tool pipelines and edit histories on the real code, invariants checked at every stage",
      "Every pipeline of saves, reads and conversions up to the depth is run from every document made from the bounded trees; every stage is checked against the tree's contents.")
check("P29", "exploration", "bounded exhaustive enumeration of damaged, odd and hostile texts, each read by the real readers and what is accepted taken through every operation of the real code",
      "Every accepted text of the enumerated family is read into every version; every operation on the document is executed and watched for panics and for not ending.")
check("P30", "exploration", "bounded exhaustive enumeration of documents, their parts, holders and ways of marshalling on the real code, compared with the writer's own JSON",
      "Every document of the bounded space and every distinct part of it is marshalled and unmarshalled within every kind of holder by the real code. Trusts encoding/json's parsing and the value alphabets of harness/docs.")
MAPS = "The check builds the real code with an instrumented runtime (go build -overlay) that lets the explorer choose where every walk over a map starts. "
check("P15", "exploration", "stateless exploration of map-walk schedules of the real code under a controlled runtime, with bounded exhaustive enumeration of documents, list orders and operation sequences",
      MAPS + "Every operation runs under every start of each walk (up to a number of deviations, and all alike), on enumerated documents.")
check("P25", "exploration", "stateless exploration of map-walk schedules of the real code under a controlled runtime, with bounded exhaustive enumeration of packages against a reference",
      MAPS + "Every package of the bounded space is reported on under every start of each walk and compared with a reference.")
check("P31", "exploration", "bounded exhaustive enumeration of odd statements in tag lists, RDF graphs (under controlled map-walk schedules of the real parser) and JSON and YAML trees, on the real code",
      MAPS + "Every odd statement of the alphabet at every place is read by the real reader; what is accepted is searched for it.")
check("P32", "exploration", "bounded exhaustive enumeration of documents; what the real code writes and reads of each compared with an encoder of its own",
      "Every document of the bounded space is written by the real code and compared with the independent encoding, and the independent encoding is read by the real code. Trusts the table of SPDX names and the forms in harness/checks/p32.go. " + DOCS)
check("P33", "exploration", "bounded exhaustive enumeration of histories of operations over inputs changed in place, on the real code; each result compared with that of a process in which it is the first",
      "The check runs itself as a process of its own for every reference result and for each share of the histories. States and documents outside the alphabet and longer histories are not explored, except that all histories of a share run in one process, one after the other.")
check("P22", "fault_enumeration", "exhaustive fault injection: an error, a short read or a change of the tree at every file-system call of a build, on the real builder, searcher and walk",
      "The check builds the real code with an instrumented package os (go build -overlay). Every call that looks at the tree fails in every way, and before every call every path is removed, moved or replaced; documents are compared with what the tree could rightly be seen as.")
RDFT = ("Trusts harness/rdfx: the statements each element has in a graph (written from the SPDX RDF terms), the ways of writing them as XML, and the comparison of documents; "
        "graphs outside the alphabets are not explored. gordf parses on a goroutine of its own; the build makes it synchronous, which its callers cannot tell apart.")
check("P16", "exploration", "stateless exploration of thread interleavings of the real code under a controlled scheduler, up to a preemption bound, and of the same schedules under the race detector",
      "The repository's sources are instrumented in the overlay with a scheduling point before every statement and at every function entry; Go's map order and hashes are fixed so that executions repeat. Libraries are not instrumented: switches happen in the repository's code only.")
check("P17", "exploration", "bounded exhaustive enumeration of graphs, ways of stating them and license expressions, read by the real code and compared with the document they state",
      MAPS + "Every graph of the bounded space is read by the real code. " + RDFT)
check("P18", "exploration", "bounded exhaustive enumeration of serialisations of graphs and stateless exploration of map-walk schedules of the real RDF reader under a controlled runtime",
      MAPS + "Every serialisation of the bounded space of the same graph must read as the same document. " + RDFT)
