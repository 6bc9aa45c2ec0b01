#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["return value of hiera.Lookup"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "First-found lookup returns the value of the highest-priority source",
     "Without any merge behaviour, a lookup returns the value of its key from the first hierarchy level, and within a level the first existing location, that defines the key; a value such as false, null, 0, \"\" or an empty collection counts as defined. Lower levels never affect the result, and when no level defines the key nothing is found.",
     ["inputs", "configurations"], "every hierarchy of levels and locations, every assignment of keys to data files (present, absent, null-valued) and every key",
     "tests use two or three fixed levels and a handful of keys; the order of precedence must hold for any number of levels, locations and any placement of the key, including null values and missing files.",
     ["merge/strategy.go", "session/invocation.go", "internal/datahashprovider.go", "provider/configlookupkey.go"],
     [("firstFound.MergeLookup", "merge/strategy.go"), ("MergeHierarchy/MergeLocations", "session/invocation.go"), ("per-location hash cache", "internal/datahashprovider.go")])
prop("C02", "unique, hash and deep merges combine all sources by their documented law",
     "With merge strategy unique the result is the flattened list of the values of all sources that define the key, in priority order without duplicates; with hash it is the union of the top-level entries where the higher-priority source wins; with deep, hashes are merged recursively, arrays become the duplicate-free union in priority order and anything else is taken from the higher-priority source. The same law applies across locations of a level and across levels, an unknown strategy name is an error, and merging neither loses, invents nor mutates source data.",
     ["inputs", "configurations"], "every list of source values of any shape and nesting, split in any way over levels and locations, for every strategy",
     "the tests merge a few fixed pairs; the laws range over arbitrary nested values, any number of sources, mixed types and duplicates.",
     ["merge/strategy.go", "merge/deepmerge.go", "session/invocation.go"],
     [("Deep", "merge/deepmerge.go"), ("unique/hashMerge/deepMerge", "merge/strategy.go")],
     ["return value of hiera.Lookup with merge option", "return value of merge.Deep", "MergeStrategy.MergeLookup"])
prop("C03", "The merge behaviour comes from the caller's option, else lookup_options",
     "The strategy of a lookup is the caller's merge option when given, otherwise the merge entry of the lookup_options of the key's root, otherwise first found, in the string form and in the hash form with a strategy entry. The lookup_options in effect are the deep merge of the lookup_options of all levels and locations with higher levels winning, they apply only to the exact root key that they are declared for, and lookup_options can never itself be looked up as data.",
     ["inputs", "configurations"], "every distribution of lookup_options over the levels, every combination with a caller's option, every key and dotted key",
     "tests declare lookup_options in one file; the assembly must hold for any overlap between levels and any combination with explicit options.",
     ["session/resolvedconfig.go", "session/invocation.go", "provider/configlookupkey.go"],
     [("SetMergeStrategy", "session/invocation.go"), ("resolvedConfig.Resolve/LookupOptions", "session/resolvedconfig.go")])
prop("C04", "Every string is either parsed into the key it denotes or rejected",
     "Parsing a key splits it on dots outside quotes; a quoted segment is always a string, may contain dots and is never an index, an unquoted segment that is a decimal 32-bit integer is an index, and all other segments are strings. A key with an empty unquoted segment, an unterminated quote or an index as its first segment is rejected with an error; no string makes parsing crash, and any list of segments with a string first can be written as a key that parses back to it.",
     ["inputs"], "all strings, and all lists of string and integer segments",
     "tests have about fifteen literal keys; the grammar must be right on every string, in particular for quotes in odd places, unicode and number-like segments.",
     ["api/key.go"], [("NewKey / parseUnquoted / parseQuoted", "api/key.go")], ["api.NewKey(...).Parts/Root/Source", "Key.Equals"])
prop("C05", "A dotted lookup equals digging into the lookup of its root",
     "Looking up a key with several segments gives exactly the value found by looking up its first segment, after merging, conversion and interpolation, and following the remaining segments: a string segment selects a hash entry and an index selects an array element (or an integer hash key). A segment that does not match, an index out of range, or digging into a scalar means not found and never an error or a value from a lower level, and a key's Bury is the inverse of its Dig.",
     ["inputs"], "every value tree, every path into or past it, every merge strategy",
     "tests dig into one or two structures; the relation is over all structures and paths including out-of-range, negative and wrongly typed segments.",
     ["api/key.go", "session/invocation.go", "provider/configlookupkey.go"], [("key.Dig / key.Bury", "api/key.go"), ("ivContext.Lookup", "session/invocation.go")])
prop("C06", "Interpolation replaces exactly the expressions in a value and nothing else",
     "In every string, at any depth of a found value including hash keys, each %{...} expression is replaced by what it denotes: a scope variable with dotted access (missing gives the empty string), scope(), literal(), lookup()/hiera(), or the empty expressions which give nothing; all other text, all non-string values and the structure stay as they are. An unknown method, a malformed key, or an alias that is not the entire string is an error, and methods are rejected in configuration files.",
     ["inputs"], "every value tree with strings composed of literal text and expressions, every scope",
     "tests interpolate a few fixed strings; the substitution must hold for any composition, position, nesting and scope.",
     ["session/interpolate.go"], [("doInterpolate / InterpolateString / getMethodAndData", "session/interpolate.go")], ["return value of hiera.Lookup", "Invocation.Interpolate"])
prop("C07", "lookup and alias expressions yield what a direct lookup of that key yields",
     "A value that is %{alias('k')} equals, with its type kept, what a direct lookup of k yields in the same scope, and %{lookup('k')} inserts its string form, for any k including dotted keys and keys with their own lookup_options or convert_to; it makes no difference which merge behaviour, module or provider the surrounding lookup uses. A missing k gives an empty string for alias and lookup and no value at all for strict_alias, and the surrounding lookup's own merge and conversion are unaffected.",
     ["inputs", "configurations"], "every acyclic reference graph between keys, any strategy on either end, config-only and multi-provider sessions",
     "tests have a single alias; context leakage between a lookup and the lookups nested in it shows only for combinations of strategies and levels.",
     ["session/interpolate.go", "session/invocation.go", "provider/muxlookupkey.go"], [("ivContext.Lookup nested mode", "session/invocation.go"), ("alias handling", "session/interpolate.go")])
prop("C08", "Endless recursion is reported as an error and never crashes or hangs",
     "When interpolation leads from a key back to itself, directly or through any chain of lookups, aliases and scope variables, the lookup fails with an ordinary error; the process survives and the session keeps serving other keys. A reference graph without cycles never triggers the error, however often a key is referenced.",
     ["inputs", "histories"], "every reference graph, cyclic or not, over keys and variables, and every sequence of lookups in it",
     "no test has a cyclic reference; the guarantee is over all graphs, and a false alarm on a diamond-shaped graph is as bad as a missed cycle.",
     ["session/invocation.go", "session/interpolate.go"], [("WithKey guard, variable guard", "session/invocation.go")], ["error of hiera.TryWithParent", "process exit status"])
prop("C09", "A hierarchy level reads exactly the locations that its configuration denotes",
     "A level's path(s), glob(s), uri(s) or mapped_paths denote, after interpolation with the current scope and relative to the level's datadir, an ordered list of files or URIs: paths in listed order, glob matches in sorted order, one path per element of the mapped variable, and URIs verbatim. Data comes from exactly the existing ones in that order; missing files, globs without match and unset mapped variables contribute nothing and are not errors.",
     ["inputs", "configurations"], "every set of location patterns, file trees and scopes",
     "tests cover one example of each location kind with a fixed tree.",
     ["config/path.go", "config/glob.go", "config/mappedpaths.go", "config/uri.go", "config/entry.go"],
     [("Location.Resolve", "config/*.go"), ("entry.resolveLocations", "config/entry.go")], ["return value of a unique-merge lookup", "options seen by provider functions"])
prop("C10", "hiera.yaml is accepted exactly when it is a valid version 5 configuration",
     "A configuration is accepted if and only if it has version 5, only known keys with values of the right type, unique level names, at most one function and at most one location key per level, non-empty strings and path lists, and valid non-reserved option names. Anything else fails with an error instead of being silently ignored or crashing, and an accepted configuration exposes exactly the levels, functions, options and locations that were written.",
     ["inputs", "configurations"], "every YAML document, valid or one edit away from valid",
     "tests have about ten invalid files; the accept/reject boundary is over all documents.",
     ["config/config.go", "config/entry.go"], [("cfgType check, createEntry, initialize", "config/config.go")], ["config.New result or panic", "lookup result"])
prop("C11", "Variables resolve from the innermost scope and scopes are always restored",
     "An invocation's variable shadows a session variable of the same name and all others stay visible, in paths, options, data and the scope provider alike. A scope set for the duration of a call is in effect exactly during that call, nested to any depth, and the previous one is restored even when the call panics; other invocations and the maps passed in by the caller are never changed or frozen, and what the caller does later with the map it created a session with doesn't change the session's variables.",
     ["inputs", "histories"], "every pair of scopes, every nesting of scope changes with or without panics",
     "tests set one scope; restoration and shadowing must hold for every nesting and failure position.",
     ["session/invocation.go", "session/session.go", "provider/scopelookupkey.go"], [("nestedScope.Get, DoWithScope", "session/invocation.go")], ["Invocation.Scope().Get, Interpolate, hiera.Lookup"])
prop("C12", "convert_to converts the merged value and sensitive values are never revealed",
     "A key whose lookup_options have convert_to yields its merged value converted to that type (with arguments when given as a list), identically in every session kind and for nested lookups, and a failed conversion is an error. A value converted to a sensitive type never appears in clear text in the plain-text rendering of the result or in the text of any explanation of the lookup, wherever its parts come from.",
     ["inputs", "configurations"], "every convertible value and type, every placement over levels, every secret and interpolation that produces it",
     "tests convert two or three values and none looks at the explanation of a sensitive lookup.",
     ["session/invocation.go", "hiera/render.go", "provider/configlookupkey.go", "provider/muxlookupkey.go"], [("LookupAndConvertData, DoRedacted, redact", "session/invocation.go")], ["hiera.Lookup", "explainer text", "LookupAndRender output"])
prop("C13", "Defaults, overrides and multiple names resolve in the documented order",
     "A lookup of several names returns the first override found for any name, else the first name found in the hierarchy, else the first name in the default values hash, else the default value, else the default function's result, else nothing; each as soon as it exists even if false or null. Looking up all returns a hash with exactly the names that have a value, and a result that is not an instance of the requested type is converted to it or fails.",
     ["inputs"], "every combination of names, data, overrides, default hashes, default values and types",
     "tests have one case per rung; the order is over all combinations.",
     ["hiera/hiera.go"], [("Lookup2 / LookupAll / ensureType", "hiera/hiera.go")], ["hiera.Lookup2, hiera.LookupAll"])
prop("C14", "Explaining a lookup changes nothing and reports what happened",
     "A lookup with an explainer finds the same value, or fails in the same way, as one without. The explanation lists, in order, the function of every level and each location that was consulted, says for each whether it was missing, had the key or not, shows the value of each that had it, and shows source, options and merged result of each merge.",
     ["inputs", "configurations"], "every hierarchy, key, strategy and explain mode",
     "tests compare a few explanations with literal text; transparency and faithfulness range over all lookups.",
     ["explain/explainer.go", "session/invocation.go", "session/interpolate.go"], [("With*/Report* in ivContext", "session/invocation.go")], ["hiera.Lookup with an explainer", "explainer text"])
prop("C15", "The result of a lookup does not depend on earlier lookups",
     "Any sequence of lookups on one session, through one or many invocations and with any keys, options, scopes and failures, gives for each lookup what it gives as the first lookup of a fresh session on the same files. No lookup modifies the option, scope, default or data values that callers passed in or received.",
     ["histories", "inputs"], "every sequence of lookups over every configuration, on shared sessions and shared invocations",
     "tests do one lookup per session; caches and carried-over state show only in histories.",
     ["session/invocation.go", "session/serverctx.go", "internal/datahashprovider.go", "provider/muxlookupkey.go", "provider/modulelookupkey.go"],
     [("SharedCache / TopProviderCache / configs / hashes caches", "session/*.go, internal/datahashprovider.go")])
prop("C16", "Invocations of one session can be used concurrently",
     "Concurrent lookups through separate invocations of one session are free of data races, never panic or deadlock, and each gives the same result as when performed alone; this includes the first use of configurations, modules, custom functions and caches and includes invalid configurations.",
     ["schedules", "histories"], "every interleaving of any set of lookups on a shared session",
     "no existing test performs lookups concurrently.",
     ["session/invocation.go", "session/session.go", "session/serverctx.go", "provider/modulelookupkey.go", "provider/yamllookupkey.go"],
     [("config lock", "session/invocation.go"), ("sync.Map caches, loadLock", "session/session.go")], ["results of hiera.Lookup from goroutines", "race detector"])
prop("C17", "Module data is isolated to the module's own keys",
     "A key mod::name is found in the hierarchy of the module directory that matches mod, ignoring case, first on the module path, and only there; modules on later path elements with the same name, keys of other modules, keys without a prefix and unknown modules yield nothing. A module's lookup_options apply only to keys with that module's prefix, and its relative datadir is under the module.",
     ["inputs", "configurations"], "every set of module directories, module paths, data and keys",
     "tests have one module path with two modules.",
     ["provider/modulelookupkey.go", "session/resolvedconfig.go"], [("loadModule, ModuleLookupKey", "provider/modulelookupkey.go"), ("LookupOptions prefix test", "session/resolvedconfig.go")])
prop("C18", "Several top-level providers behave like levels of one hierarchy",
     "With a list of provider functions the lookup consults them in order with the same first/unique/hash/deep laws as for hierarchy levels, using the caller's merge option or else the deep merge of the lookup options that the providers declare for the key. The outcome for one provider is that of the provider alone, and values found by a provider are never mistaken for lookup options.",
     ["inputs", "configurations"], "every list of providers (configuration, environment, module, custom, YAML), every distribution of values and options",
     "tests use one fixed pair of providers.",
     ["provider/muxlookupkey.go"], [("MuxLookupKey", "provider/muxlookupkey.go")])
prop("C19", "Rendering a value as YAML or JSON loses nothing",
     "Any data value rendered as JSON or as YAML parses back, by an independent parser, to the same value, with each JSON rendering on one line and null rendered as a value of its own; binary rendering writes the exact bytes and text rendering the exact string. An unknown rendering name is an error.",
     ["inputs"], "every data value: nested, empty, unicode, control characters, strings that look like other types, extreme numbers",
     "tests render three values.",
     ["hiera/render.go", "hiera/hiera.go"], [("Render", "hiera/render.go")], ["output of hiera.Render / LookupAndRender"])
prop("C20", "The REST service answers every request like a library lookup, independently",
     "A GET of /lookup/<key> with any var, default, merge and type parameters answers 200 with the JSON of the value that the library finds in the scope of the server's and the request's variables, 404 when nothing is found and 500 when the lookup fails, and other paths answer 404. Requests never influence each other, sequentially or concurrently, no request ends the server or makes it unresponsive, and the data race detector stays silent.",
     ["inputs", "histories", "schedules"], "every request and every sequence or concurrent batch of requests, valid or malformed",
     "the service has no tests at all.",
     ["hieraserver/rest/rest.go"], [("CreateRouter/doLookup", "hieraserver/rest/rest.go")], ["HTTP status and body"])
prop("C21", "Command line variables, files and flags give the lookup they denote",
     "The lookup command's output equals the rendering of a library lookup with the same keys, options and scope: --var name=value or name:value is split at its first single separator and literal values are parsed, --vars files are merged over variables, --facts files are merged last and are also visible under facts, and a malformed variable or file is an error with non-zero exit. Nothing found prints nothing, and --default, --merge, --type, --all and --render-as have their library meaning.",
     ["inputs", "configurations"], "every combination of flags, variable strings and files",
     "tests run about thirty fixed command lines.",
     ["cli/hiera.go", "hiera/hiera.go"], [("createScope, varSplit, parseCommandLineValue, LookupAndRender", "hiera/hiera.go")], ["stdout and error of the lookup command"])
prop("C22", "A plugin function behaves like the same function in process",
     "A lookup through a plugin's data_hash, lookup_key or data_dig function yields the same value as an in-process function that computes the same result from the same key and options, over tcp and unix sockets, for any value; the plugin inherits the environment and is told the transport and socket directory that the session's options select. Not-found answers mean not found, and an error status, an unreadable answer or a dead plugin makes the lookup fail with an error while other lookups keep working.",
     ["inputs", "fault_sequences"], "every key, option map and answer value; every kind of faulty answer",
     "tests call one plugin with a few keys and test no faulty answers.",
     ["session/pluginloader.go", "internal/lookupkeyprovider.go", "internal/datahashprovider.go", "internal/datadigprovider.go"], [("callPlugin, makeOptions, dispatch functions", "session/pluginloader.go")])
prop("C23", "Plugin processes are started once and never outlive their session",
     "A session starts a plugin that works once, on first use, however many lookups, functions and goroutines use it, and every process that it started, and every connection to it, is gone when the session ends, whether it ends normally, with an error or with a panic. A plugin that answers its handshake late, wrongly or not at all makes the lookup fail with an error that names it, and its process is gone when that lookup has failed.",
     ["fault_sequences", "histories", "crash_points"], "every behaviour of a plugin process at start and at termination, every way a session ends",
     "tests start well-behaved plugins only.",
     ["session/pluginloader.go", "session/session.go", "hiera/hiera.go"], [("startPlugin, kill, stopAll", "session/pluginloader.go")], ["process table", "error of the lookup"])
prop("C24", "A provider's cache is a map shared by its session",
     "Values that a lookup function stores in its context are returned to later calls in the same session until replaced, storing returns the previous value, all entries can be enumerated exactly once, and different sessions never see each other's entries. Interpolation, options and the invocation offered by the context are those of the lookup in progress.",
     ["histories", "inputs"], "every sequence of cache operations from any number of invocations and sessions",
     "tests call each operation once or twice.",
     ["session/serverctx.go"], [("serverCtx", "session/serverctx.go")], ["ServerContext methods"])
prop("C25", "yaml2json converts any YAML document to the equivalent JSON",
     "For every YAML document with string keys that uses no YAML-only types, yaml2json writes formatted JSON that denotes the same value and exits 0. Invalid YAML, and documents that JSON cannot represent, give a non-zero exit and no output.",
     ["inputs"], "every YAML document",
     "the tool has no tests.",
     ["yaml2json/main.go"], [("stringKeys", "yaml2json/main.go")], ["stdout and exit status of yaml2json"])
prop("C26", "YAML and JSON data files with equal content are interchangeable",
     "Every lookup gives the same result whether a level's data is stored as YAML with yaml_data or as the equivalent JSON with json_data, and the data that is found is the data in the file. A missing file is empty, and a file that cannot be read, is malformed or does not hold a hash makes lookups fail with an error rather than give partial data.",
     ["inputs"], "every data hash in every YAML or JSON formatting, and every malformed file",
     "tests read a few files.",
     ["provider/yamldata.go", "provider/jsondata.go", "internal/datahashprovider.go"], [("YamlData, JSONData", "provider/*.go")])
prop("C27", "The environment is readable as data and provides the documented defaults",
     "The key env::NAME yields exactly the value of that environment variable and nothing when it is unset, and env yields all variables. HIERA_DATADIR and HIERA_PLUGINDIR apply exactly when neither a level nor the defaults set the value, and HIERA_CONFIGFILE exactly when no configuration is given by other means.",
     ["inputs", "configurations"], "every environment and every subset of the settings",
     "tests set two of the variables in one combination each.",
     ["provider/environment.go", "config/config.go", "session/session.go"], [("Environment", "provider/environment.go"), ("addHieraConfig", "session/session.go"), ("defaultDataDir, defaultPluginDir", "config/config.go")])
prop("C28", "A failing lookup is an error that leaves the session usable",
     "Whatever is wrong, be it configuration, data, key, interpolation, function, conversion or merge strategy, a lookup fails with an error returned to the caller and never terminates the process, blocks or yields a wrong value. After a failure the same session answers all lookups that do not depend on the fault as if it had not occurred, and the faulty ones fail again or, once the fault is repaired, succeed.",
     ["fault_sequences", "histories"], "every kind and placement of fault, every sequence of lookups around it",
     "tests provoke single errors in sessions that are thrown away.",
     ["session/invocation.go", "hiera/hiera.go", "config/config.go"], [("config lock release", "session/invocation.go"), ("TryWithParent", "hiera/hiera.go")], ["error of hiera.TryWithParent", "subsequent lookups"])
prop("C29", "The configuration in effect follows the documented precedence",
     "The configuration file is the explicit config path, else the given file name or HIERA_CONFIGFILE or hiera.yaml in the given root or working directory; when it does not exist the default configuration reads data.yaml beside it and then data/common.yaml. A configuration file that exists but cannot be read is an error. Relative datadirs are relative to the configuration file, and naming the same configuration by a relative or an absolute path gives the same lookups.",
     ["configurations", "inputs"], "every combination of root, file name, environment, working directory and existing files",
     "tests cover the default and one explicit path.",
     ["session/session.go", "config/config.go", "config/entry.go"], [("addHieraConfig", "session/session.go"), ("config.New defaults", "config/config.go")])
prop("C30", "Defaults are inherited by exactly the levels that do not override them",
     "A level without its own function, datadir, plugindir or options behaves exactly as if the value from the defaults section, or the built-in default (yaml_data, data, plugin, none) had been written in it, and a level that has its own behaves as if the default did not exist. Writing defaults out into every level never changes a lookup.",
     ["configurations"], "every subset of settings in defaults and levels",
     "tests have a single defaults section.",
     ["config/entry.go", "config/config.go"], [("entry.Resolve", "config/entry.go")])
prop("C31", "An explanation survives serialization",
     "The explanation of any lookup, rendered as rich data in JSON or YAML and read back in a session, is an explanation with the same text. Rendering an explanation never fails and does not alter it.",
     ["inputs"], "every explanation that a lookup can produce",
     "tests deserialize a few fixed explanations.",
     ["explain/explainer.go", "config/path.go", "api/key.go"], [("initialize/initMap of explain nodes", "explain/explainer.go"), ("named types of locations and keys", "config/*.go, api/key.go")], ["hiera.Render of an explainer and streamer.UnmarshalJSON"])
prop("C32", "Custom functions are called with exactly the configured options, path and key",
     "An in-process data_hash, lookup_key or data_dig function of a level is called with the level's options, interpolated in the current scope, plus the path or URI of the current location, and with the root key, once per existing location in order or once without a location. What it returns, or its absence, is treated like data of that level, and a function that cannot be found makes the lookup fail.",
     ["configurations", "inputs"], "every option map, location set, function kind, key and returned value",
     "tests call one custom function in one configuration.",
     ["internal/lookupkeyprovider.go", "internal/datahashprovider.go", "internal/datadigprovider.go", "session/session.go"], [("LookupKey of the three providers", "internal/*.go"), ("LoadFunction", "session/session.go")], ["recorded calls of the functions and the lookup result"])
prop("C33", "The REST server answers exactly the clients that its TLS options admit",
     "When the REST server is started with a key and a certificate it answers over TLS only, presenting that certificate. With client verification it answers exactly the clients that hold a currently valid client certificate issued, directly or through a presented intermediate, by a CA in the given CA file; without verification it answers every TLS client. A key, certificate or CA file that is missing, malformed or does not belong together makes the server end with an error instead of serving.",
     ["configurations", "inputs"], "every combination of key, certificate and CA files with every kind of client certificate and protocol version",
     "no test starts the server, with or without TLS.",
     ["hieraserver/rest/rest.go"], [("makeTLSconfig, loadCertPool, startServer", "hieraserver/rest/rest.go")], ["HTTPS requests of clients to the running server, its exit status"])
prop("C34", "The published schema describes the configurations that are accepted",
     "The JSON schema in schema/hiera_v5.yaml, converted by yaml2json as documented, is well formed; it accepts every configuration that Hiera accepts and rejects every configuration that Hiera rejects because of its structure: unknown or misplaced keys, values of the wrong type, a missing name, a wrong version, several functions or several locations in one level, or mapped_paths that are not three strings.",
     ["configurations"], "every configuration, valid or not",
     "no test uses the schema; the configurations that distinguish it from the loader are combinations of settings.",
     ["schema/hiera_v5.yaml", "config/config.go", "yaml2json/main.go"], [("definitions of level, location and providerFunction", "schema/hiera_v5.yaml"), ("cfgType, createEntry, initialize", "config/*.go")], ["verdict of a JSON schema evaluator and of config.New"])

prop("C35", "What a plugin writes on its standard error ends up in the log, and writing never blocks the plugin",
     "Everything that a plugin process writes on standard error, before its handshake, while it runs, when it is terminated or before it fails to start, is written to the log output of the process that started it: complete, in order and with the lines as they were written regardless of their number, length and contents (a newline may be added to a last line that has none). All of it is there when the lookup that starts the plugin fails and when the session has ended, however the session ends. Neither what is written there nor what is written on standard output after the handshake blocks the plugin or disturbs lookups.",
     ["plugin output", "session endings"], "every output and every way a session may end",
     "the tests use plugins that write a line or two; lines that exceed buffers, output of a dying plugin and output that is pending when the session ends are matters of size and timing.",
     ["session/pluginloader.go"], [("copyErrToLog, ignoreOut", "session/pluginloader.go"), ("awaitOutput, kill, startPlugin", "session/pluginloader.go")], ["log output", "progress of the plugin", "lookup results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
