#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

PM, SW, SP, PL, B, HU = "pluginManager.go", "pluginManagerSwapper.go", "staticPlugin.go", "plugin.go", "cli/hotswap/cmd/build.go", "internal/hutils/hutils.go"

p("R01", "A failed load or reload changes nothing that is running",
  "Whenever LoadPlugins, Reload or ReloadWithCallback cannot complete (unreadable or unloadable file, missing function, error or panic in any plugin function, refused dependency graph, name clash, vetoing callback), it returns a non-nil error and never panics. Current() afterwards is the very same manager as before, with the same plugins, vault contents and working functions, and none of its plugins has been freed by the failed attempt. A later attempt without the fault, with newly built files, succeeds.",
  ["fault_sequences", "histories"], "every point at which a load can fail, for every plugin and every plugin function, at any position in a history of loads, reloads and directory edits",
  "Tests provoke about a dozen single failures, on a first load, and look only at the error text; none checks that a running generation survives a failed reload.",
  [PM, SW, SP], [("load pipeline with rollback", PM + ": loadPlugins"), ("publish only after success", SW + ": loadPluginFiles"), ("static variant", SP + ": loadStaticPlugins")],
  ["return values of LoadPlugins/Reload/ReloadWithCallback", "Current()", "calls received by plugin functions"],
  [("current manager", "the published generation", SW + ": PluginManagerSwapper.current")])

p("R02", "Current() only ever shows the latest fully initialised generation",
  "Current() and the successful loads behave like one atomic register: every successful load replaces exactly the generation its callback was told is the old one, readers see the newest generation whose load has returned (or one whose load is just completing), and nobody ever sees an older one again. A generation that readers can see has finished every OnLoad, the vault, every OnInit and every reload callback, and reading never waits for a reload in progress.",
  ["schedules", "histories"], "every interleaving of concurrent readers with concurrent loads and reloads, successful and failing",
  "The tests call Current() from one goroutine only, after Reload has returned.",
  [SW], [("atomic publication", SW + ": loadPluginFiles, Current"), ("reload mutex", SW + ": LoadPlugins, ReloadWithCallback")],
  ["call/return history of Current, LoadPlugins, Reload*, and reload callback arguments"],
  [("current manager", "the published generation", SW + ": PluginManagerSwapper.current")])

p("R03", "Plugin functions run in the documented phases, each exactly once",
  "In one load the newly loaded plugins go through Reloadable, Export, Import, OnLoad, vault set-up and OnInit in this order, and the last four are barriers: no Import before every Export, no OnLoad before every Import, no OnInit before every OnLoad and before the vault holds all live functions and types. In a successful load each of these functions of each newly loaded plugin is called exactly once, with the caller's data for OnLoad and the new generation's vault for OnInit. None of them is called again on a plugin that is carried over from the previous generation.",
  ["inputs", "histories"], "every set of plugins, dependency graph and history of loads and reloads",
  "Tests compare the log order of OnLoad/OnInit for one three-plugin graph.",
  [PM, SP], [("phase sequence", PM + ": loadPlugins"), ("per-phase loops", PM + ": initDeps, invokeEveryOnLoad, setupVault, invokeEveryOnInit")],
  ["calls received by plugin functions and their arguments"])

p("R04", "Dependencies come first: initialisation order, and reverse for freeing",
  "For every accepted dependency graph, a plugin's OnLoad and OnInit run only after those of all plugins it (transitively) imports that are loaded in the same load, and Plugins() lists every plugin after its dependencies. When a generation is released, a plugin's OnFree runs before the OnFree of any of its dependencies released with it; the same holds when a load that had already resolved its dependencies is rolled back.",
  ["inputs", "histories"], "every acyclic dependency graph over any number of plugins, including graphs that mix carried-over and new plugins",
  "Tests cover one fixed graph of depth two.",
  [PM], [("topological ordering", PM + ": orderPlugins"), ("reverse release", PM + ": invokeEveryOnFree")],
  ["call order of OnLoad, OnInit, OnFree", "Plugins()"],
  [("ordered", "plugins of a generation, dependencies first", PM + ": PluginManager.ordered")])

p("R05", "OnFree runs exactly once per loaded version, and never while it is in use",
  "A loaded plugin version gets OnFree exactly once: before the failing call returns if its load attempt fails, and otherwise some time after the last generation that contains it has been replaced. A version that belongs to the current generation, or to a generation still within its free delay, is never freed, however often it was carried over and however many reloads failed in between. A panicking OnFree neither is repeated nor keeps other plugins from being freed.",
  ["histories", "fault_sequences"], "every history of successful and failed loads with plugins added, rebuilt, removed, carried over",
  "Tests look at one reload with one replaced plugin, and at the reference count after one chain of four loads.",
  [PM, SW], [("reference counting", PM + ": addUnchanged, invokeEveryOnFree"), ("once guard", PL + ": freeOnce"), ("delayed release", SW + ": loadPluginFiles")],
  ["calls received by OnFree, with their (virtual) time"],
  [("Refs", "number of generations that hold a version", PL + ": Plugin.Refs")])

p("R06", "The free delay is honoured",
  "After a reload, OnFree of versions that left service does not run before the delay given to WithFreeDelay (default 5 minutes) has passed since the replacing generation took over, nor before 15 seconds have passed however small that delay is. It does run once that time is over, without any further call by the host, whatever other loads succeed or fail meanwhile.",
  ["configurations", "histories"], "every delay (unset, zero, negative, below and above the minimum) and every timing of later loads relative to pending releases",
  "Tests replace the minimum by one second and check one reload at one delay.",
  [SW], [("delayed release goroutine", SW + ": loadPluginFiles"), ("minimum delay", SW + ": minFreeDelay")],
  ["virtual time of OnFree calls relative to the return of the replacing load"])

p("R07", "Reload replaces exactly what changed and may change",
  "In a load on top of a running generation, a plugin with the same name (ignoring case) is carried over as the same running instance if it declared itself not reloadable (reported as \"not reloadable\") or if its file content is byte-identical (\"unchanged\"); every other plugin is loaded anew from the file (\"ok\"), plugins whose files are gone are dropped, and nothing else appears. The returned Details say so for each plugin, and the generation replaced keeps serving its own instances unaffected.",
  ["inputs", "histories"], "every history of adding, rebuilding, touching, renaming by case, restoring and removing plugin files between loads",
  "Tests check three plugins over one reload.",
  [PM, SW], [("classification", PM + ": removeNotReloadable, removeUnchanged, addUnchanged"), ("details", SW + ": loadPluginFiles")],
  ["Details", "Plugins()/FindPlugin() and which build answers InvokeFunc, old and new generation"],
  [("FileSha1", "digest of the loaded file content", PL + ": Plugin.FileSha1")])

p("R08", "Imports receive exactly what the named plugin of the same generation exports",
  "Before any OnLoad runs, every exported field of a new plugin's Import() struct holds the value that the plugin named by the field (ignoring case) returned from Export() in this generation, or in the generation it is carried over from, and is left untouched if that value is nil. Unexported fields and fields tagged hotswap:\"-\" are never touched and create no dependency.",
  ["inputs", "histories"], "every set of import structs, field names, field types and tags, over new and carried-over plugins",
  "Tests use one hand-written struct with two fields.",
  [PM], [("dependency injection", PM + ": initDeps")],
  ["field values seen by plugins at OnLoad"])

p("R09", "A plugin set is accepted if and only if its dependencies are sound",
  "A load is refused when an imported plugin is absent, its export does not fit the field, Import() returns something other than nil or a pointer to a struct, a dependency field is embedded, the imports form a cycle of any length, a non-reloadable plugin imports a reloadable one, or a carried-over plugin imports (directly or through others) one that is replaced or gone. No load is refused for dependency reasons otherwise. The decision is taken in reasonable time, however many plugins there are and however densely they import each other.",
  ["inputs", "histories"], "every dependency graph, each defect placed anywhere in it, and every mix of carried-over and new plugins",
  "Tests have one example for most defects, cycles only of length two and three.",
  [PM], [("checks", PM + ": initDeps"), ("cycle detection", PM + ": checkCyclicDependency")],
  ["accept/refuse verdict of the load"])

p("R10", "The vault of a generation is exactly the union of its plugins' live things",
  "Each generation has its own vault: its LiveFuncs and LiveTypes hold exactly the live functions and types of all its plugins, new and carried over, under their names and with their newest version, its DataBag starts empty and its Extension is one fresh object from the configured constructor. A load in which two plugins offer the same live function name, or the same live type name, is refused. No later load, failed or successful, alters an earlier generation's vault.",
  ["inputs", "histories"], "every assignment of live names to plugins and every history of loads",
  "Tests look for three names after one load, and for one clash of each kind on a first load.",
  [PM], [("vault set-up", PM + ": newPluginManager, setupVault")],
  ["vault seen in OnInit and through Current()"],
  [("Vault", "live functions, live types, data bag, extension", "vault/vault.go")])

p("R11", "A faulty plugin cannot take the host down",
  "A panic with any value, or an error, in any plugin function or reload callback never propagates out of the swapper or manager and never kills the process, including OnFree calls made in the background: it becomes the error of the load, which names the failure, or is logged. Other plugins still get their turn, and all methods remain usable afterwards (no lock stays held).",
  ["fault_sequences", "inputs"], "every plugin function, plugin position and panic value (string, error, runtime error, nil dereference, custom type), singly and in combination",
  "Tests panic with one string in one plugin per function, on a first load.",
  [PM, SW, PL, SP], [("recover wrappers", PL + ": invokeExport, invokeImport, invokeReloadable; " + PM + ": invokeEvery*, InvokeEach*; " + SW + ": invokeReloadCallbacks")],
  ["panics reaching the caller", "process survival", "calls still made to the other plugins", "log output"])

p("R12", "The set of plugins is exactly the .so files, or the whitelist",
  "A load considers exactly the regular entries of the plugin directory (the one to which its path leads at that time) whose names end in .so, taking the rest of the name as the plugin name; with a whitelist it considers exactly the listed ones, and is refused if any of them is missing. Two considered plugins whose names differ at most in case make the load fail; FindPlugin finds each loaded plugin under any capitalisation and nothing else. With no plugin to consider nothing happens and no error is reported.",
  ["inputs", "configurations"], "every directory content (other files, subdirectories, similar names, odd capitalisation) and whitelist, in dynamic and static mode",
  "Tests use directories that hold nothing but the wanted files, and no whitelist at all.",
  [SW, PM, SP], [("directory scan and whitelist", SW + ": loadPluginsImpl; " + SP + ": loadStaticPlugins"), ("name clash", PM + ": loadPlugins, name2key")],
  ["Details", "Plugins()", "FindPlugin()"])

p("R13", "Concurrent use is free of data races and deadlocks, and loads never overlap",
  "LoadPlugins, Reload, ReloadWithCallback, ResetPluginDir, Current, ReloadCounter and all read and invoke methods of managers may be called from any goroutines at any time, also while old generations are being freed, without a data race or deadlock. Loads take place one at a time, and ReloadCounter equals the number of reloads that returned no error; a load is not refused because of what other goroutines call meanwhile.",
  ["schedules"], "every interleaving of concurrent calls, of plugin code using its vault and imports, and of delayed frees",
  "All tests are sequential and none is run under the race detector.",
  [SW, PM], [("reload mutex", SW + ": mu"), ("atomic counter and pointer", SW + ": current, reloadCounter"), ("atomic reference count", PL + ": Refs")],
  ["race detector reports", "overlap of load activity", "ReloadCounter()"])

p("R14", "Static linking offers the same behaviour, without reloading",
  "A set of statically linked plugins given to WithStaticPlugins is loaded with the same phases, dependency injection and order, vault, refusals, roll-back, callbacks and whitelist as the same set loaded from files, reports \"ok\" for each, and needs no plugin directory. Under static linking every reload is refused with an error without running anything, and StaticLinkingMode() reports true.",
  ["inputs", "fault_sequences"], "every plugin set, dependency graph, whitelist and fault, loaded statically and compared with the same reference model",
  "One test loads three independent plugins and counts them.",
  [SP, SW], [("static pipeline", SP + ": loadStaticPlugins, loadStaticPlugin")],
  ["calls received by plugin functions, Details, Current(), errors"])

p("R15", "Lookup hands out the right symbol or leaves the target alone",
  "Plugin.Lookup stores the symbol in *out if its type is assignable to the target, else the value of the exported variable if that is assignable, and returns nil in exactly these cases. In every other case (unknown symbol: ErrNotExist; empty name, nil or non-pointer target, type mismatch, plugin without a loaded file) it returns an error, leaves the target unchanged and does not panic.",
  ["inputs"], "every combination of symbol kind and type, target kind and type, and name",
  "Tests try about eight combinations on one plugin.",
  [PL], [("Lookup", PL + ": Lookup, isNil")],
  ["return value of Lookup and the target after it"])

p("R16", "The code that runs is the file that was recorded, from an untouchable copy",
  "A plugin version is loaded from a private copy that is byte-identical to the file content whose digest the plugin records, even if the original file is replaced or removed during or after the load. Once handed to the dynamic loader, such a copy is never rewritten, truncated or reused by another load, and the original plugin files are never modified. A load that cannot make such a copy fails.",
  ["histories", "schedules"], "every history of loads and file replacements, including several loads of the same content within one second and replacements in the middle of a load",
  "Tests never replace a file during a load nor look at the copies.",
  [PM], [("private copy", PM + ": copyPlugin, loadPlugin"), ("digest from the same bytes", PM + ": fileInfoMap.add")],
  ["files handed to the dynamic loader (path, content, inode, modification) and Plugin.FileSha1"])

p("R17", "Reload callbacks run once, before publication, in order, and can veto",
  "After all OnInit calls of an otherwise successful load and before the new generation becomes current, the configured callback and then the extra one are each called exactly once with the new and the replaced manager (nil on a first load). An error or panic of one of them makes the load fail with that error, skips the remaining callback and frees the new versions; no callback runs in a load that fails earlier or has nothing to load.",
  ["inputs", "fault_sequences"], "every combination of configured and extra callback, outcome of each, and load kind",
  "One test runs one plugin through five reloads.",
  [SW], [("callbacks", SW + ": invokeReloadCallbacks, loadPluginFiles")],
  ["calls received by the callbacks, Current() during them, outcome of the load"])

p("R18", "InvokeEach reaches every plugin exactly once, in order",
  "InvokeEach calls InvokeFunc of every plugin of the generation exactly once, dependencies first, and InvokeEachBackward does so in exactly the reverse order, both with the given name and arguments. An error or panic of one plugin is logged and does not keep the others from being called.",
  ["inputs", "fault_sequences"], "every generation, argument list, and set of plugins that fail or panic",
  "Tests use two plugins that both fail.",
  [PM], [("fan-out", PM + ": InvokeEach, InvokeEachBackward")],
  ["calls received by InvokeFunc with arguments", "log output"])

p("R19", "A generation describes itself truthfully",
  "Every plugin of a published generation bears the name and path of the file it was loaded from, a load time within the load that loaded it, and as Deps exactly the plugins it depends on; its Note tells whether and why it was carried over, and a carried-over plugin keeps name, path, digest and load time. The Details returned by a load have exactly one entry for each plugin, under that path (the name of a static plugin), saying whether it was loaded, unchanged or not reloadable. A description does not change while its generation lives.",
  ["inputs", "histories"], "every plugin set, dependency graph and history of loads",
  "Tests look at the notes of two plugins and at no other part of a description.",
  [PM, SW, "staticPlugin.go"], [("description", PM + ": loadPlugin, addUnchanged, initDeps"), ("details", SW + ": loadPluginFiles")],
  ["the fields of Plugins() and the returned Details against the model of what was loaded, before and after later loads"])

p("R20", "Reloading for ever leaks nothing but the code it loads",
  "However many loads and reloads a host performs, successful or refused for whatever reason, only the loaded code and its copies on disk pile up: no file descriptor stays open after a load has returned, no goroutine of the library outlives the free delays, the contents of plugin files do not stay in memory, and a generation that was replaced or refused, with its vault, data bag and extension, can be reclaimed once its free delay is over and nobody else refers to it.",
  ["histories", "fault_sequences"], "every sequence of any number of loads and reloads, each successful or failing at any point",
  "Tests reload at most a few times and never look at what a load leaves behind.",
  [PM, SW], [("copies", PM + ": copyPlugin"), ("delayed release", SW + ": loadPluginFiles"), ("one generation per load", PM + ": newPluginManager, loadPlugins")],
  ["open file descriptors, goroutines, heap size and weak pointers to generations, vaults and data after many loads"])

p("C01", "Building a plugin preserves its source",
  "The code compiled by hotswap build is the plugin's own source, in which only the package clause of files in the plugin's root directory and the import paths of the plugin's own packages differ; string literals, comments that are compiler directives, and everything else stay as written. A plugin built this way behaves like the same packages compiled normally.",
  ["programs"], "every plugin source tree: nested packages, import forms and aliases, raw and interpreted literals that resemble package clauses or import paths, names that are prefixes of each other",
  "Tests build a fixed set of small plugins and never compare the built code with its source.",
  [B], [("rewriting", B + ": copyFiles")],
  ["the temporary package tree compared with the source, and run-time output of the built plugin compared with a normal build"])

p("C02", "Live functions and types are discovered completely and correctly",
  "The live functions and live types of a built plugin are exactly the top-level functions (not methods) and struct types of all its packages whose names start with the live prefix, ignoring case, each registered under its own name, functions as themselves and types as a constructor that returns a pointer to a new zero value on each call. A live type that is not a struct, or a name used twice, makes the build fail.",
  ["programs", "configurations"], "every plugin tree, placement and spelling of live names, and prefix option",
  "Tests know four live names in two plugins; clashes inside one plugin are not tested.",
  [B, "cli/hotswap/cmd/hotswapLive.tpl", "cli/hotswap/cmd/hotswapMain.tpl", "cli/hotswap/cmd/hotswapBureau.tpl"], [("discovery", B + ": completePlugin"), ("registration code", "cli/hotswap/cmd/hotswapLive.tpl")],
  ["HotswapLiveFuncs()/HotswapLiveTypes() of plugins built by the CLI", "exit status"])

p("C03", "Versions built by the CLI coexist in one process, isolated from each other",
  "Any two builds of a plugin, however quickly one follows the other and whether or not its source changed, yield files that can be loaded one after the other in the same process. Each version runs its own code with its own package-level state in all its packages, the old one keeps working after the reload, and a plugin that was not rebuilt keeps its state.",
  ["histories", "programs"], "every sequence of edits, builds and reloads, including builds within the same second",
  "The test run is slowed down to one build per plugin and second, and looks at one string variable.",
  [B, PM, SW], [("unique package path per build", B + ": execute (tmpDirName, tmpPkgPath), copyFiles")],
  ["outcome of loading and answers of old and new versions loaded by the real dynamic loader"])

p("C04", "A plugin build leaves no traces and is honest about its result",
  "However hotswap build ends (success, any failing step, SIGINT or SIGTERM at any step), the plugin's source tree is as before and the temporary directory is gone, unless the user asked to keep it. It exits 0 only if the requested output was produced completely, and never crashes.",
  ["crash_points", "fault_sequences"], "every step of the build (each external command, before and after it; each unreadable source file) combined with failure, SIGINT and SIGTERM",
  "Tests only run builds that succeed or are refused at once, and never look at what is left behind.",
  [B], [("cleanup and signal handling", B + ": execute, removeTmpDir, interruptProgram"), ("parallel copying", B + ": copyFiles")],
  ["file system before and after", "exit status", "race detector on the CLI"])

p("C05", "Static linking code of several plugins coexists, compiles and can be removed",
  "After hotswap build --staticLinking has been run for any number of plugins with the same output directory, in any order and repeatedly, the output directory registers exactly these plugins, each with its own functions, and compiles. Running it again gives the same files, and nothing but the tool's own generated files of the plugin in question is ever changed or removed; --clean removes exactly these.",
  ["histories", "programs"], "every sequence of generating, regenerating and cleaning for several plugins, package names and layouts",
  "The test set-up saves and restores the generated files by hand around each run of the CLI; --clean is not tested.",
  [B, "cli/hotswap/cmd/hotswapStaticPluginInit.tpl", "cli/hotswap/cmd/hotswapStaticPlugins.tpl", SP], [("generation and removal", B + ": genHotswapStaticPluginInit, genHotswapStaticPlugins, removeStaticFiles, findPluginInitFiles"), ("positional registration", SP + ": NewPluginFuncs")],
  ["file system before and after", "plugins registered in a program linked with the generated code, and which function answers"])

p("C06", "Exactly the right files take part in a plugin build",
  "The files that take part in a build are all .go files of the plugin directory and its subdirectories except tests and the tool's own generated files, plus the files whose base names match --include and do not match --exclude; they keep their relative paths and, for non-Go files, their bytes. Test files beside the code, whatever their package name, do not affect the build.",
  ["inputs", "configurations"], "every tree of files, nesting and include/exclude expression",
  "No test uses --include or --exclude or has files other than Go sources.",
  [B, HU], [("collecting", B + ": collectFiles, copyFiles"), ("package name", HU + ": PackageFromDirectory")],
  ["the temporary package tree compared with a reference selection"])

p("C07", "Incomplete plugins are rejected at build time, complete ones are not",
  "hotswap build fails, naming each of them, if any of OnLoad, OnInit, OnFree, Export, Import, InvokeFunc and Reloadable is not a top-level function in a non-test file of the plugin's root package that takes part in the build; methods, variables, types, and functions of sub-packages or tests with these names do not count. It does not fail for this reason if all are present, in whatever files of the root package they are.",
  ["programs"], "every subset and placement of the required functions",
  "Tests switch this check off.",
  [B], [("check", B + ": parseRequiredPluginFuncs")],
  ["exit status and message of the CLI"])

p("C08", "Unusable input is refused promptly and without side effects",
  "Given unusable arguments (missing or extra arguments, absent or non-directory paths, a plugin directory outside any Go module or with an invalid go.mod, invalid --include or --exclude expressions of a plugin build, an empty live prefix, static output inside the plugin directory, --clean without --staticLinking, source that does not parse), hotswap build ends with a non-zero status and a message, in a bounded number of steps, and modifies nothing except creating a missing output directory.",
  ["inputs", "configurations"], "every kind of unusable argument and environment, alone and combined with other options",
  "No test passes unusable arguments to the CLI.",
  [B, HU], [("validation", B + ": execute"), ("module lookup", HU + ": PackageFromDirectory")],
  ["exit status, output and file system of the CLI"])

p("C09", "Build options reach the compiler, and nothing else changes what is built",
  "hotswap build runs go build once for a plugin, with -trimpath, in plugin mode, in the user's environment plus GO111MODULE=on, and with everything after -- passed on unchanged and in order. The result is <outputDir>/<base name of pluginDir>.so, whose absolute path is the last line printed. How paths are spelled, the working directory, -v, --debug, --leaveTemps and the position of options do not change what is built; --goBuild=false and --leaveTemps leave exactly one directory, the one that is or would be built, whose path is printed in the former case.",
  ["inputs", "configurations"], "every command line, spelling of paths, list of build flags, environment and plugin",
  "Tests pass at most two fixed build flags and never look at the command or at what is left.",
  [B, "cli/hotswap/hotswap.go"], [("the command", B + ": buildPlugin"), ("options", B + ": execute"), ("build flags", "cli/hotswap/hotswap.go: main")],
  ["arguments, directory and environment of go build", "output and directory left behind", "answers of really built plugins"])

p("C10", "Builds that run at the same time do not disturb one another",
  "Any number of plugin builds may run at the same time, of the same plugin (to different output directories), of plugins with similar or equal names, of other plugins of the same module, whether they succeed, fail or are interrupted, and whether or not they leave their trees behind, and meanwhile static code may be generated for yet another plugin. Each has the exit status, gives go build the files, writes the output and leaves the directory that it would if it ran alone, and only that.",
  ["schedules", "configurations"], "every set of builds and every way in which they overlap",
  "Tests run one build at a time.",
  [B], [("directory of a build", B + ": execute (tmpDirName, tmpDir), removeTmpDir"), ("collecting", B + ": collectFiles, copyFiles")],
  ["exit status, output, what go build is given and what is left behind, for builds that overlap and for each of them alone"])

p("C11", "A plugin builds if and only if go can build its packages, with the same modules",
  "hotswap build of a complete plugin succeeds if, and only if, go build can compile, where they are, the plugin's root package and its packages with live functions (and all that they import), with the same build flags (such as -mod, -modfile and -tags), the same environment (GOFLAGS, GOWORK) and in the same kind of module: with local replacements, in a workspace, with a vendor directory, with an alternative go.mod, nested in another module, whatever the directories are called. What does not take part (other packages, test files, excluded files) may be broken. Packages of other modules come from where go takes them; the plugin's own packages are those of this build only, even if its directory is given by way of a symbolic link to one of its parents.",
  ["inputs", "configurations"], "every kind of module, code that compiles or does not, every combination of build flags and environment",
  "Tests build plugins of one plain module, with one set of flags.",
  [B, "internal/hutils/hutils.go"], [("go build", B + ": buildPlugin"), ("packages of the plugin", B + ": completePlugin, listFlags"), ("package path", "internal/hutils/hutils.go: PackageFromDirectory")],
  ["exit status of hotswap build and of go build for the same plugin, dependency and own packages in the plugin file"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
