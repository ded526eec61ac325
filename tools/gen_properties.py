#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

T, N, S, L, CV, RL, NW = ("radix/trie.go", "radix/node.go", "store.go", "load.go",
                          "radix/cvter.go", "radix/load.go", "new.go")
WF = ("keys made of non-empty segments joined by the delimiter, over arbitrary characters (ASCII and not), "
      "no spaces, no segment starting with ':' or '*'")

prop("C01", "A key reads back the value most recently written to it",
 "After any history of writes and removals, a key that was written and not removed since reads back exactly the value of its most recent write, whatever other keys exist, whatever leading characters they share, and in whatever order they were written. A write reports the value it replaced (nothing for a new key) and never changes the value of another key. Two histories that leave the same keys with the same last values give the same answers to every lookup.",
 ["histories", "inputs"], "every finite history of Set, Insert, SetEx, SetNode, SetEmpty and Remove over " + WF,
 "The tests insert one fixed set of about eight keys in one fixed order; the splitting of nodes depends on which keys share characters and on the order of insertion, so the reachable tree shapes are barely sampled.",
 [N, T, S], [("radix insertion and node split", N + ": insertInternal, split, insertAsLeaf"), ("lookup", N + ": matchR; " + T + ": search, Query")],
 [("root", "the radix tree shared by a store and its views", T + ": trieS"), ("nType", "leaf/branch, has-data and modified bits of a node", N + ": nodeS")],
 ["Store.Set", "Store.Get", "Store.MustGet", "Store.SetEx", "Trie.SetNode", "Trie.Insert"])

prop("C02", "A path is found iff it is a stored key or a section enclosing one",
 "Lookups and existence tests find a path exactly when it is a stored key or a section, that is, when some stored key continues it with the delimiter (a path ending with the delimiter is the section it names); a path that merely shares leading characters with a key name is not found. A section without a value of its own is found with no value. The answer depends only on the keys present now: not on the order they were written in, nor on keys removed since; the partial-existence test accepts exactly the leading fragments of stored keys.",
 ["histories", "inputs"], "every history of writes and removals, and every queried path, over " + WF,
 "Tests query fourteen paths on one fixed tree; whether a section or a shared fragment happens to have its own node depends on the history.",
 [T, N], [("full, partial and section matching", N + ": matchR; " + T + ": search, Query, Has, HasPart, Locate")],
 [("children", "a section exists while some data lies beneath it", N + ": nodeS")],
 ["Store.Get", "Store.Has", "Store.GetEx", "Store.Locate", "Trie.Query", "Trie.Search", "Trie.HasPart"])

prop("C03", "Removing a path deletes that key and its subtree, and nothing else",
 "Removing a path deletes exactly that key and every key beneath it, and reports whether anything was deleted; removing a path that is not found changes nothing and reports false. Every other key keeps its value and its metadata, including keys that only share leading characters with the removed one. A removed key can be written again and is then an ordinary new key without any remnant of the old one.",
 ["histories", "inputs"], "every history of writes followed by removals of any path, over " + WF,
 "Tests remove two leaf keys from one fixed tree and check only that those are gone.",
 [T, N, S], [("RemoveEx", T + ": RemoveEx"), ("child removal", N + ": remove")],
 [], ["Store.Remove", "Store.Get", "Store.Has", "Store.GetR"])

prop("C04", "Extracting a subtree returns exactly the keys and values it contains",
 "Extracting a path as a flat map returns one entry for each stored key at or beneath it, named by the full key and holding the current value; extracting it as a hierarchical map returns the same entries relative to the path, nested by segment (for a single leaf: under its last segment). A filter keeps exactly the entries it accepts, and options that keep the prefix or unflatten the keys only rearrange names. The empty path stands for everything the store or view can see, a walk over the whole store visits every key once with its value, and a path that is not found extracts nothing.",
 ["histories", "inputs"], "every reachable store content and every extraction path and option, over " + WF + "; hierarchical forms where no extracted key is also a section of another",
 "Tests extract two or three paths from one fixed tree; names are cut out of full keys by offsets that depend on path depth, view prefix and tree shape.",
 [CV, T, N], [("GetR, GetM", CV + ": GetR, GetM, prefixPutter, splitCompactKeys"), ("Walk", T + ": Walk; " + N + ": walk")],
 [], ["Store.GetR", "Store.MustR", "Store.GetM", "Store.MustM", "Store.Walk"])

prop("C05", "A prefix view is an alias of the subtree it names",
 "Every operation on a view with a given prefix has exactly the effect and the result of the same operation on the underlying store with the prefix joined in front of the path: writes through either side are immediately visible through the other. Appending prefixes composes, replacing a prefix discards the old one, re-setting a view's prefix re-targets only that view, and creating or using a view never alters stored data by itself. Setting metadata, merging a map, removing and extracting through a view follow the same rule.",
 ["histories", "programs"], "every program that creates any number of nested views of one store and interleaves operations on all of them",
 "Tests build one or two views and read or write two keys through them.",
 [RL, T, S], [("prefix joining", T + ": Join, join1"), ("views share the root", T + ": dupS; " + RL + ": WithPrefix, WithPrefixReplaced, SetPrefix")],
 [("prefix", "the view's prefix", T + ": trieS")], ["Store.WithPrefix", "Store.WithPrefixReplaced", "Store.SetPrefix", "Store.Prefix"])

prop("C06", "A clone is an exact copy, isolated from the original",
 "A clone holds the same keys, values, descriptions, comments, tags and modified states as the original at the moment of cloning, and answers every query alike. Afterwards no operation on either one, including in-place changes of slice or map values read from it, is observable through the other. Cloning leaves the original unchanged.",
 ["histories", "programs"], "every history before the clone, and every interleaving of operations on original and clone afterwards",
 "Tests clone once and compare one value.",
 [N, T, S], [("deep copy", N + ": Dup; " + T + ": Dup; " + S + ": Dup, Clone")],
 [], ["Store.Clone", "Store.Dup"])

prop("C07", "Description, comment and tag stay with their key",
 "Metadata set on a key is what that key returns until it is set again or the key is removed, regardless of other keys being written, removed or restructured around it and of new values being written to the key itself. Setting metadata never affects another key, reports success exactly when the key exists, and does nothing otherwise; a new key starts with empty metadata. Setting a key together with its metadata in one call is the same as setting the value and then the metadata.",
 ["histories", "inputs"], "every history of writes, removals and metadata updates, over " + WF,
 "Tests set metadata once on one leaf of a fixed tree, after which the tree is not restructured.",
 [T, N], [("SetComment, SetTag, SetNode", T), ("split moves metadata with the key", N + ": split")],
 [("description, comment, tag", "metadata of a node", N + ": nodeS")],
 ["Store.SetComment", "Store.SetTag", "Store.GetDesc", "Store.GetComment", "Store.GetTag", "Trie.SetNode"])

prop("C08", "Modified state marks exactly the keys changed by the user",
 "A key is marked modified once the user sets it with Set or Merge, and stays so until the mark is reset; loading from a provider, or setting inside a loading block, leaves the mark of the affected keys as it was (clear for a new key). The mark belongs to the key: restructuring, clones and views do not change it, and a key that is removed and loaded anew is clear. Extracting with a filter on the mark therefore returns exactly the subset the user changed.",
 ["histories", "configurations"], "every history mixing user writes, loads, loading blocks, mark resets, removals, clones and views",
 "One test modifies one key after one load.",
 [S, L, N], [("setKV", S + ": setKV"), ("loading flag", L + ": inLoading, WithinLoading, Load"), ("flag bits", N + ": SetModified")],
 [("loading", "non-zero while a load runs", S + ": storeS")], ["Node.Modified", "Store.GetM with a filter", "Store.WithinLoading", "Store.Load"])

prop("C09", "Merging or loading a nested map puts every leaf at its own path",
 "Merging a nested map at a path, or loading it through a provider under a store prefix, is equivalent to setting each leaf at the path joined with its map keys, lists (of anything, or of maps) being expanded to numbered keys exactly when slice flattening is on and otherwise kept as one value; other lists, such as lists of strings, stay one value. Keys not named by the map keep their values. The result does not depend on map iteration order, and the value, description, comment and tag a provider supplies for an entry arrive together.",
 ["inputs", "histories"], "every nested map of string-keyed maps, any-keyed maps (for Store), lists of maps, lists and scalars, at every merge point, with slice flattening on and off (Trie.Merge always flattens)",
 "Tests merge three fixed documents and read back a handful of paths.",
 [L, RL, S], [("recursive flattening", L + ": loadMap, loadMapAny, loadMapByValueType, loadMapDedicated, privateSetter"), ("trie-level merge", RL + ": loadMapByValueType")],
 [("flattenSlice", "whether lists are expanded", S + ": storeS")], ["Store.Merge", "Trie.Merge", "Store.Load"])

prop("C10", "Save writes back exactly the modified entries, and they load again",
 "Saving a loaded source hands the provider exactly the modified entries beneath the store prefix of that load, arranged as a nested document relative to that prefix, and writes nothing when there are none; saving everything as a new source does the same for all entries. Loading the written document through the same codec into an empty store under the same prefix reproduces those entries. Saving never changes the store, and an encoder or provider failure is reported to the caller.",
 ["histories", "inputs", "fault_sequences"], "every history of loads and user changes before a save, for each codec able to represent the values; keys that are not at once a value and a section",
 "The tests save one or two fixed documents and do not read them back.",
 [L, CV, "codecs/json/json.go", "codecs/yaml/yaml.go", "codecs/toml/toml.go", "codecs/hjson/hjson.go", "codecs/gob/gob.go", "providers/file/file.go"],
 [("trySave, SaveAs", L), ("unflattening", CV + ": splitCompactKeys, submap"), ("codecs", "codecs/*")],
 [], ["Writeable.Save", "Loader.SaveAs", "Codec.Marshal", "Codec.Unmarshal"])

prop("C11", "Change handlers see every change exactly once, with the right arguments",
 "Every key set with Set, Merge or a load, through a store or any of its prefix views, calls each registered new-key handler (if the key was absent) or each change handler (if it was present) exactly once, with the key, the new value and for a change the value it replaced; every successful removal calls each delete handler exactly once with the removed path and its value. The last argument tells direct user operations (false) from merging and loading (true). Operations that change nothing, and operations on a clone, call no handler of the original.",
 ["histories", "programs"], "every program of sets, removals, merges, loads on a store with handlers and on its views; keys at which no section exists count as absent",
 "The only test logs the calls and asserts nothing about them.",
 [S, L], [("tryOnSet, tryOnDelete, setKV", S), ("privateSetter", L)],
 [("onNewHandlers, onChangeHandlers, OnDeleteHandlers, parent", "registered handlers and the store a view was made from", S + ": storeS")],
 ["WithOnNewHandlers", "WithOnChangeHandlers", "WithOnDeleteHandlers"])

prop("C12", "A TTL fires once, on time, on its own key, and never after Close",
 "A TTL on a key fires exactly once when its time has come and not before: the callback runs, then the key's value and tag are cleared while the key itself stays; a TTL on a section removes that section. No other key is touched, whatever keys were written, removed or restructured between setting and firing, and whichever view it was set through; setting a TTL on a path that is not found fails and schedules nothing. After the store is closed nothing fires any more and no background activity remains.",
 ["schedules", "histories"], "every interleaving of timer expiry with writes, removals, view creation and Close",
 "Tests wait for one or two timers on keys that are not touched meanwhile.",
 [T, N, S], [("TTL service", T + ": TTL, newttls, run, SetTTL, SetTTLFast, Close"), ("clearing", N + ": SetEmpty")],
 [("ttls", "the timer service of a tree", T + ": trieS")], ["Store.SetTTL", "Store.SetTTLFast", "Node.SetTTL", "Store.Close"])

prop("C13", "Route patterns match by segment and bind their parameters",
 "A stored pattern with ':name' segments matches a looked-up path exactly when they have the same number of segments and every literal segment is equal, binding each name to the corresponding segment; a final '*name' matches any non-empty rest and binds it whole. A path that is itself stored literally, or whose literal segments match more specifically, wins over a parameter at the same position, in whatever order the routes were added. The match yields the value stored for that pattern.",
 ["inputs", "histories"], "every set of routes (one parameter name per position, not both ':' and '*' at one position) added in any order, and every looked-up path with non-empty segments",
 "Two tests look up one path each on a fixed set of six routes.",
 [N, T], [("parameter and wildcard matching", N + ": matchR, extractor"), ("Query, Locate with kvpair", T)],
 [], ["Trie.Query with a KVPair", "Store.Locate", "Store.Get"])

prop("C14", "Recursive-up lookup finds the nearest enclosing definition",
 "With recursive-up mode on, looking up a key beneath a section returns the key of that section if it is found there, and otherwise that of the nearest enclosing section which has it, up to the top-level section; if none has it the lookup is not found. Keys whose names merely start alike never stop or satisfy the search. With the mode off, or switched off again, only the exact path counts, and selecting a mode never changes stored data nor the mode of the store it was selected from.",
 ["histories", "inputs"], "every store content, every depth of the starting section and every single-segment key",
 "One test looks up one key from one section.",
 [T, RL], [("retry loop", T + ": search"), ("mode selection", RL + ": N, R, BR, RecursiveMode")],
 [("recursiveMode", "the lookup mode of a view", T + ": trieS")], ["Store.BR", "Store.N", "Store.R", "Store.RecursiveMode", "Store.Get"])

prop("C15", "Behaviour is the same for every delimiter, which can change at run time",
 "For every choice of delimiter character a store behaves as it does with the dot, with that character in place of it; the dot is then an ordinary character. Changing the delimiter at run time keeps all keys and values, and from then on sections, prefixes, extraction and merging follow the new delimiter.",
 ["configurations", "histories"], "every delimiter rune, ASCII or not, and every history around a change of delimiter",
 "Tests use '.' almost everywhere and '/' on one tree.",
 [T, RL, CV, L, S], [("delimiter-aware matching and joining", T + ": search, Join, SetDelimiter; " + S + ": join")],
 [("delimiter", "current delimiter rune", T + ": trieS")], ["store.WithDelimiter", "Store.SetDelimiter"])

prop("C16", "Typed getters agree with the stored value and honour defaults",
 "Each typed getter returns the stored value converted to its type when the path is found and has a value of a convertible type, and the given default (the last one for a scalar, all of them for a list, the zero value when none is given) with a not-found error when the path does not exist. The error-less variant always returns the same result as the error-returning one. A getter never changes the store.",
 ["inputs", "histories"], "every typed getter, every stored scalar, list or map of convertible values, present and absent paths, with and without default",
 "Tests call each getter once or twice on present keys; the absent/default combinations are mostly not exercised.",
 [CV], [("typed getters", CV)], [], ["Store.GetInt", "Store.MustInt", "Store.GetString", "Store.GetBool", "Store.GetFloat64", "Store.GetStringSlice", "..."])

prop("C17", "Changes announced by a watched source are applied to the store",
 "When watching is enabled and a loaded source announces created or written entries, each announced key beneath the load's store prefix afterwards has the announced value, and each key announced as removed is gone; entries not announced are untouched, and renames, permission changes and error events change nothing. Without watching enabled, or when the load opted out, the source is not watched at all. Closing the store closes every source it is watching.",
 ["histories", "configurations"], "every sequence of change events of a watchable source interleaved with user operations, with and without a store prefix",
 "No test delivers a change event to a store.",
 [L, S], [("startWatch, applyExternalChanges, applyChanges", L), ("closers", S + ": Close")],
 [("closers", "watched sources to close", S + ": storeS")], ["store.WithWatchEnable", "store.WithoutWatch", "Watchable.Watch", "Store.Close"])

prop("C18", "Callback accessors run once, on the right node, without side effects",
 "Setting with a callback stores the value and runs the callback exactly once, with the full key, the previous value and the node of that key; updating runs its callback exactly once with the node of that key (created empty if absent) and its current value, and changes nothing but what the callback changes. Reading with a callback runs it once, with the node, value and section state, exactly when the path is found. Changes made through the node in a callback are changes of that key.",
 ["histories", "inputs"], "every history of writes before the call and every key, new or existing, over " + WF,
 "The examples call each once and assert nothing about the number of calls or the arguments.",
 [N, T], [("SetEx, Update, GetEx", T), ("callback inside the recursive insertion", N + ": insertInternal")],
 [], ["Store.SetEx", "Store.Update", "Store.GetEx"])

prop("C19", "A node handle stays bound to its key",
 "The node returned by a write, or handed to a callback or a walk, keeps denoting the same key for as long as the key is in the store, whatever else is written or removed: it reports that key, its current value and its metadata, and changes made through it are changes of that key alone. A handle of a removed key no longer affects the store.",
 ["histories", "programs"], "every history of operations after a handle was obtained",
 "Tests use handles immediately and never after the tree was restructured.",
 [N, T], [("split keeps or moves nodes", N + ": split, insertInternal"), ("removal", N + ": remove")],
 [], ["Store.Set", "Node.Key", "Node.Data", "Node.SetData", "Node.SetComment", "Node.SetTag", "Node.SetModified"])

prop("C20", "A load that fails leaves the store as it was and usable",
 "When a provider or codec fails, loading reports the error, sets no key, and leaves the store out of the loading state, so that later user writes count as modifications and later loads work. Loading with no provider changes nothing. A load started from within a load of the same store does nothing and does not end the outer load's loading state.",
 ["fault_sequences", "histories"], "every sequence of loads with a fault injected at reading, at decoding, or nowhere, interleaved with user writes",
 "No test injects a fault into a load.",
 [L], [("loading guard", L + ": Load, WithinLoading"), ("tryLoad", L)],
 [("loading", "non-zero while a load runs", S + ": storeS")], ["Store.Load", "Store.WithinLoading"])

prop("C21", "Map, environment and flag providers supply every entry under its key",
 "Loading from the map provider sets every leaf of the map; loading from the environment or command-line-flag provider sets one key for each variable or flag that has the configured prefix, and no other, named by the documented transformation (stripped prefix, lower case, underscores to dots, key callback, store prefix) and holding its value. The streaming interface of the environment and flag providers enumerates each key exactly once, agrees with the bulk interface on every value, and reports absent keys as absent. Neither creating nor reading a provider changes the caller's map or the environment.",
 ["inputs", "configurations"], "every map, every set of environment variables or flags and every combination of provider options",
 "Each provider is loaded once from a fixed source.",
 ["providers/maps/maps.go", "providers/env/env.go", "providers/flags/flags.go", "internal/cvt/cvt.go"], [("prepare, Next, Keys, Value", "providers/env/env.go, providers/flags/flags.go"), ("normalisation", "internal/cvt")],
 [], ["Store.Load with maps.New, env.New, flags.New", "StreamProvider"])

prop("C22", "Human-readable sizes parse to the number of bytes they denote",
 "Reading a size such as '2K', '3MiB', '1.5G' or a plain number yields the number multiplied by the power of 1024 (binary getters) or of 1000 (decimal getters) its unit letter stands for, upper or lower case and with or without the trailing byte suffix, in decimal, hexadecimal or octal notation. Absent or empty values give the default. No input makes the getters panic.",
 ["inputs"], "every combination of number notation, spacing, unit letter and suffix, and arbitrary strings for the no-panic part",
 "Tests parse a handful of fixed strings.",
 [CV], [("FromKibiBytes, FromKiloBytes", CV)], [], ["Store.GetKibiBytes", "Store.MustKibiBytes", "Store.GetKiloBytes", "Store.MustKiloBytes"])

prop("C23", "A section decodes into a struct, each field from the key of its name",
 "Decoding the section at a path into a fresh struct gives every field, at every depth of nested structs, the value stored under the key of that name below the path, leaves a field without a key at its zero value, and takes nothing from keys outside the section or of another name, whatever other keys share its leading characters. The filter of the call chooses the entries that count; decoding an absent path reports no error and leaves the struct as it was. The store's methods, the generic function and views agree, and decoding changes nothing in the store.",
 ["histories", "inputs"], "every history of writes, merges, loads and removals and every path, view, delimiter and filter, with structs of strings, integers, floats, booleans, string lists and nested structs and values of the types of their fields",
 "Tests decode one fixed document into one struct.",
 [CV, S], [("To, GetSectionFrom", CV), ("To", S), ("GetM, splitCompactKeys, submap", CV)], [], ["Store.To", "Store.GetSectionFrom", "store.To"])

prop("C24", "Documents in files load in every format, and are written only where allowed",
 "Loading a file through the file or filesystem provider with the JSON, YAML, TOML, HJSON, NestedText or gob codec sets exactly the leaves of the document, with their values, below the prefix of the load; a missing or malformed file makes the load fail and changes nothing. Saving writes a document in the codec's format that holds exactly what is to be saved, to a file whose write-back is enabled; everywhere else it fails and leaves every file as it was. Loading never changes a file, and each codec decodes what it encoded to the same leaves.",
 ["inputs", "histories", "fault_sequences"], "every document of strings (any text), numbers, booleans, lists and nested sections, every format and provider, and every history of file changes, loads, writes and saves",
 "Each format is loaded from one fixed file; nothing is saved to a file and no malformed file is loaded.",
 [L, "providers/file/file.go", "providers/fs/fs.go", "codecs/json/json.go", "codecs/yaml/yaml.go", "codecs/toml/toml.go", "codecs/hjson/hjson.go", "codecs/nestext/nestext.go", "codecs/gob/gob.go"],
 [("tryLoad, trySave, SaveAs", L), ("ReadBytes, Write", "providers/file, providers/fs"), ("Marshal, Unmarshal", "codecs")], [], ["Store.Load", "Loader.Save", "Loader.SaveAs", "Codec.Marshal", "Codec.Unmarshal"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
