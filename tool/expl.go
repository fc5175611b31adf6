package main

// worldAssum are the assumptions of the rules that interpret goroutines.
var worldAssum = append([]string{
	"the models of the network, timers, influxdb, os and encoding/gob behave like the libraries (influxdb and go-llrp calls are opaque)",
	"schedules are explored up to the context bound of each scenario: every choice of the abstract scheduler that the rule enumerates, not every interleaving",
}, absAssum...)

var explanations = map[string]string{
	"C08": "every savable type is built, saved and restored abstractly, into a fresh value and into one that holds something else; the two object graphs, their dumps and the answers to a symbolic search are compared, and the saved bytes of the original are unchanged",
	"C09": "every element of an abstract saved stream is cut off, dropped, replaced or given another type tag in turn; each restore must report an error, and a restored engine must never panic",
	"C10": "abstract interpretation of build, AddSubscription and DeleteSubscription of the Patricia trie on symbolic filters for every enumerated history; the content, observed through a fully symbolic search after the history, is compared with the specified set",
	"C11": "abstract interpretation of the Patricia search on symbolic tries and IDs, also shorter than the filters; the report URIs are compared with the filters that are bit prefixes of the ID and no existing memory may be written",
	"C12": "abstract interpretation of build, AddSubscription and DeleteSubscription of the splay tree on symbolic filters for every enumerated history; the content, observed through a fully symbolic search after the history, is compared with the specified set",
	"C13": "abstract interpretation of repeated splay searches with independent symbolic IDs; each search after a reorganisation must still report exactly the filters that are bit prefixes of its ID",
	"C14": "abstract interpretation of the list and legacy engines for every enumerated add and delete history on symbolic entries; reported URIs are compared with the specified content, and for the legacy engine with the scheme of the identity",
	"C15": "abstract interpretation of ToByteSubscriptions and of the CSV loader on sets of symbolic and malformed patterns and records; the resulting filters and report URIs are compared with the patterns that compile",
	"C16": "abstract interpretation of Search of all engines with translation succeeding or failing; result, error and the translated PC and ID are compared, and writes to memory that existed before the search are reported",
	"C17": "escape and effect analysis on the abstract heap: after each constructor, addition, deletion and clone no object reachable from the engine or a global is reachable from the caller's set, and the set is unwritten",
	"C18": "each engine and set is built, dumped and saved twice with map iterations taken in different orders; every abstract text and stream must be equal",
	"C19": "the registry is interpreted and each constructor's result is matched against its registry name, Name method, saved-type tag, priority and monitoring code, all pairwise distinct and complete",
	"C20": "happens-before analysis (vector clocks over the abstract goroutine scheduler) of every access of factory and generator state met in the scenarios, including searches, interval ticks, management messages and status queries from other goroutines",
	"C21": "abstract interpretation of the generator life cycle and its state machine under every enumerated schedule; the order of building, announcing and use of an engine is checked on every path",
	"C22": "abstract interpretation of the factory loop on every enumerated sequence of messages and throughput order; the messages sent, the current engine and the engines told about a subscription are compared with the documented routing",
	"C23": "abstract interpretation of searches during statistics intervals under every enumerated schedule; answers, counts and reported throughput are compared with the searches made",
	"C24": "abstract interpretation of the collector's connection handling on streams of messages with symbolic content, cut at every point; reads, answers and dispatched events are compared with the frames",
	"C25": "abstract interpretation of the statistics manager and of the collector's relay on every enumerated sequence of messages; the points and batches handed to influxdb are compared with the messages",
	"C26": "typestate analysis on the abstract heap of connections, listeners and files with a failure at each call; every acquired resource must be released or handed over on every path and the accept loop must go on",
	"C30": "provenance analysis: every command-line option is an opaque value, and each part it configures must receive that very value",
}

func setExplanations() {
	for id, t := range explanations {
		ru, ok := rules[id]
		if !ok {
			continue
		}
		if ru.expl == "" {
			ru.expl = t
		}
		if len(ru.assum) == 0 {
			ru.assum = worldAssum
		}
		rules[id] = ru
	}
}
