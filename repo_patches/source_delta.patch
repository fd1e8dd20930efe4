From 80b6ae9c359a4925405c952f3310674d8d713ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 01/31] fix: load plugins whose names contain capital letters

infoMap is keyed by the lower-cased name, so looking it up with the original
name gave nil and every load of such a plugin ended in a nil dereference.
---
 pluginManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pluginManager.go b/pluginManager.go
index 553a68a..872778a 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -133,7 +133,7 @@ func (pm *PluginManager) loadPlugins(files []string, oldManager *PluginManager,
 	pm.outputStats1(infoMap)
 	pm.when = time.Now()
 	for _, name := range infoMap.names() {
-		info := infoMap.m[name]
+		info := infoMap.m[name2key(name)]
 		curFileInfo = info
 		if err = pm.loadPlugin(info, data); err != nil {
 			return fmt.Errorf("failed to load the plugin %s. err: %w", info.name, err)
-- 
2.43.0


From 8aa1ae073d4d0e455ee3582f4b326e30e25c7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 02/31] fix: never treat unexported fields of Import() as
 dependencies
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The first byte of the field name was taken for its first letter, so an
unexported field such as ωmega was taken for an exported one: it was refused
as an unknown dependency, or reflect panicked when it was set.
---
 pluginManager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index 872778a..f660cfa 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -13,7 +13,6 @@ import (
 	"sort"
 	"strings"
 	"time"
-	"unicode"
 
 	"github.com/edwingeng/hotswap/internal/hutils"
 	"github.com/edwingeng/hotswap/vault"
@@ -260,7 +259,7 @@ func (pm *PluginManager) initDeps() error {
 		n := impTyp.Elem().NumField()
 		for i := 0; i < n; i++ {
 			field := impTyp.Elem().Field(i)
-			if ch := field.Name[0]; !unicode.IsUpper(rune(ch)) {
+			if !field.IsExported() {
 				continue
 			}
 			if field.Tag.Get("hotswap") == "-" {
-- 
2.43.0


From 0683afbf41c71c18f549b4decd8eafffc28ea5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 03/31] fix: accept a whitelist that names a plugin twice

The number of plugins found was compared with the length of the list, so a
repeated name made every load fail with an empty list of missing plugins.
---
 pluginManagerSwapper.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pluginManagerSwapper.go b/pluginManagerSwapper.go
index 538608b..aef07c2 100644
--- a/pluginManagerSwapper.go
+++ b/pluginManagerSwapper.go
@@ -114,13 +114,13 @@ func (sw *PluginManagerSwapper) loadPluginsImpl(data interface{}, cbs []ReloadCa
 		}
 	}
 	if len(sw.opts.whitelist) > 0 {
-		if len(found) != len(sw.opts.whitelist) {
-			var missing []string
-			for _, v := range sw.opts.whitelist {
-				if _, ok := found[v]; !ok {
-					missing = append(missing, v)
-				}
+		var missing []string
+		for _, v := range sw.opts.whitelist {
+			if _, ok := found[v]; !ok {
+				missing = append(missing, v)
 			}
+		}
+		if len(missing) > 0 {
 			return nil, errors.New("cannot find the following plugin(s): " + hutils.Join(missing...))
 		}
 	}
-- 
2.43.0


From 97a62ee17831cb657f4103d1bf87dbe093110c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 04/31] fix: never reuse the private copy of a plugin file

The name of the copy depended on the current second, the process id and the
content only. Loading the same content twice within a second (a retry after a
failed load, or a file that is restored) rewrote a file that was mapped into
the process, and got the used, possibly freed, plugin from the loader, or
waited for its failed initialisation forever.
---
 pluginManager.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index f660cfa..2f1ad98 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -164,9 +164,18 @@ func (pm *PluginManager) copyPlugin(info *fileInfo) (string, error) {
 		return "", err
 	}
 
+	// A copy that is open must not be overwritten, and the same path must not be opened twice.
+	// So, every copy gets a name of its own.
 	sum := xxHash32.Checksum(info.fileSha1[:], 0)
-	dst := filepath.Join(tmpDir, fmt.Sprintf("%s-%#8x%s", info.name, sum, hutils.FileNameExt))
-	return dst, ioutil.WriteFile(dst, info.fileData, 0644)
+	f, err := ioutil.TempFile(tmpDir, fmt.Sprintf("%s-%#8x-*%s", info.name, sum, hutils.FileNameExt))
+	if err != nil {
+		return "", err
+	}
+	if _, err := f.Write(info.fileData); err != nil {
+		_ = f.Close()
+		return "", err
+	}
+	return f.Name(), f.Close()
 }
 
 type pluginFuncItem struct {
-- 
2.43.0


From 0bfa92856bf5ab89b53901c302aff66ecdead915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 05/31] fix: refuse static plugins whose names differ in case
 only

Plugin names ignore case. Of two such static plugins one silently replaced the
other, whose OnLoad, OnInit and OnFree never ran; the dynamic mode refuses them.
---
 staticPlugin.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/staticPlugin.go b/staticPlugin.go
index cda9663..6577809 100644
--- a/staticPlugin.go
+++ b/staticPlugin.go
@@ -66,6 +66,16 @@ func (pm *PluginManager) loadStaticPlugins(staticPlugins map[string]*StaticPlugi
 	}
 	sort.Strings(a)
 
+	counters := make(map[string]int)
+	for _, name := range a {
+		counters[name2key(staticPlugins[name].Name)]++
+	}
+	for k, v := range counters {
+		if v > 1 {
+			return fmt.Errorf("duplicate name detected: %s. static plugins: %s", k, strings.Join(a, ", "))
+		}
+	}
+
 	pm.when = time.Now()
 	for _, name := range a {
 		curPlugin = staticPlugins[name]
-- 
2.43.0


From c30ac20db48281a17570ad6b0c9ccc568bc15ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 06/31] fix: do not panic in Plugin.Lookup of a static plugin

---
 plugin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin.go b/plugin.go
index 0a249f8..b2ab435 100644
--- a/plugin.go
+++ b/plugin.go
@@ -82,6 +82,9 @@ func (pl *Plugin) Lookup(symName string, out interface{}) error {
 	if k := outVal.Type().Kind(); k != reflect.Ptr {
 		return fmt.Errorf("out must be a pointer. plugin: %s, symName: %s", pl.Name, symName)
 	}
+	if pl.P == nil {
+		return fmt.Errorf("symbols cannot be looked up under static linking mode. plugin: %s, symName: %s", pl.Name, symName)
+	}
 	sym, err := pl.P.Lookup(symName)
 	if err != nil {
 		return ErrNotExist
-- 
2.43.0


From 9c66f84a6ce370c715916e53b48455534225c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 07/31] fix: make ResetPluginDir safe to call while plugins are
 being loaded

It wrote a string that a concurrent Reload reads. It does not take the lock of
the loads themselves, so that it can still be called from reload callbacks.
---
 pluginManagerSwapper.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pluginManagerSwapper.go b/pluginManagerSwapper.go
index aef07c2..2eabcaf 100644
--- a/pluginManagerSwapper.go
+++ b/pluginManagerSwapper.go
@@ -49,7 +49,8 @@ type PluginManagerSwapper struct {
 	staticPlugins map[string]*StaticPlugin
 	reloadCounter int64
 
-	mu sync.Mutex
+	mu    sync.Mutex
+	dirMu sync.Mutex // protects opts.pluginDir
 }
 
 func NewPluginManagerSwapper(pluginDir string, opts ...Option) *PluginManagerSwapper {
@@ -63,9 +64,17 @@ func NewPluginManagerSwapper(pluginDir string, opts ...Option) *PluginManagerSwa
 }
 
 func (sw *PluginManagerSwapper) ResetPluginDir(pluginDir string) {
+	sw.dirMu.Lock()
+	defer sw.dirMu.Unlock()
 	sw.opts.pluginDir = pluginDir
 }
 
+func (sw *PluginManagerSwapper) pluginDir() string {
+	sw.dirMu.Lock()
+	defer sw.dirMu.Unlock()
+	return sw.opts.pluginDir
+}
+
 func (sw *PluginManagerSwapper) Current() *PluginManager {
 	v := sw.current.Load()
 	pluginManager, _ := v.(*PluginManager)
@@ -86,9 +95,10 @@ func (sw *PluginManagerSwapper) LoadPlugins(data interface{}) (Details, error) {
 
 func (sw *PluginManagerSwapper) loadPluginsImpl(data interface{}, cbs []ReloadCallback) (Details, error) {
 	var absDir string
-	if err := hutils.FindDirectory(sw.opts.pluginDir, "pluginDir"); err != nil {
+	pluginDir := sw.pluginDir()
+	if err := hutils.FindDirectory(pluginDir, "pluginDir"); err != nil {
 		return nil, err
-	} else if absDir, err = filepath.Abs(sw.opts.pluginDir); err != nil {
+	} else if absDir, err = filepath.Abs(pluginDir); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From a027502a19c7a81f0f5927407d01e454ac78187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 08/31] fix: do not loop forever when there is no go.mod

---
 internal/hutils/hutils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 1b87538..bdb94d2 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -76,8 +76,12 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	for absDir != "" {
 		f := filepath.Join(absDir, "go.mod")
 		if _, err := os.Stat(f); err != nil {
+			parent := filepath.Dir(absDir)
+			if parent == absDir {
+				break
+			}
 			a1 = append(a1, filepath.Base(absDir))
-			absDir = filepath.Dir(absDir)
+			absDir = parent
 			continue
 		}
 
-- 
2.43.0


From 48cddb7e7af7c4e90b5a47fb99fc2312b398c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 09/31] fix: ignore test files when looking for the package
 name

---
 internal/hutils/hutils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index bdb94d2..f84896c 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -40,7 +40,9 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	}
 
 	fset := token.NewFileSet()
-	pkgs, err := parser.ParseDir(fset, dir, nil, parser.PackageClauseOnly)
+	pkgs, err := parser.ParseDir(fset, dir, func(info os.FileInfo) bool {
+		return !strings.HasSuffix(info.Name(), "_test.go")
+	}, parser.PackageClauseOnly)
 	if err != nil {
 		return "", "", err
 	}
-- 
2.43.0


From 24d27f4a3a8d10661f51f9504f32632ce1cbe2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 10/31] fix: do not crash when several files cannot be copied

---
 cli/hotswap/cmd/build.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index f7be0c4..b12c656 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -791,13 +791,12 @@ func (bc *buildCmdT) copyFiles(files []string) {
 	burst := runtime.NumCPU() * 5
 	chErr := make(chan error, burst)
 	abort := make(chan struct{})
+	var abortOnce sync.Once
 	reportErr := func(err error) {
 		chErr <- err
-		select {
-		case <-abort:
-		default:
+		abortOnce.Do(func() {
 			close(abort)
-		}
+		})
 	}
 
 	var wg sync.WaitGroup
-- 
2.43.0


From 55c5147b3d13533812400afd7ada1d82af9b9dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 11/31] fix: give every build a package path of its own

---
 cli/hotswap/cmd/build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index b12c656..d7d9374 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -227,7 +227,8 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		panic(fmt.Errorf("failed to determine the package path. err: %v", err))
 	}
 
-	now := time.Now().Format("02150405")
+	// Every build needs a package path of its own, or a process cannot load both of two builds.
+	now := strconv.FormatInt(time.Now().UnixNano(), 36)
 	commitInfo := bc.commitInfo()
 	if !bc.staticLinking {
 		const format = "%s-%s-%s"
-- 
2.43.0


From c9021f412ed6f8b359a0d0133ec00bea856bbfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 12/31] fix: rewrite nothing but the package clause and the
 plugin's own imports

---
 cli/hotswap/cmd/build.go | 42 +++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index d7d9374..8d02b7b 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -763,25 +763,35 @@ func (bc *buildCmdT) collectFiles() []string {
 }
 
 func (bc *buildCmdT) copyFiles(files []string) {
-	rexPkg := regexp.MustCompile(`(?m)^package\s+\S+`)
-	oldImportPath1 := []byte(`"` + bc.pluginPkgPath + `"`)
-	newImportPath1 := []byte(`"` + bc.tmpPkgPath + `"`)
-	oldImportPath2 := []byte(`"` + bc.pluginPkgPath + `/`)
-	newImportPath2 := []byte(`"` + bc.tmpPkgPath + `/`)
-	oldImportPath3 := []byte("`" + bc.pluginPkgPath + "`")
-	newImportPath3 := []byte("`" + bc.tmpPkgPath + "`")
-	oldImportPath4 := []byte("`" + bc.pluginPkgPath + "/")
-	newImportPath4 := []byte("`" + bc.tmpPkgPath + "/")
-
 	replaceCode := func(rel string, data1 []byte) []byte {
+		fset := token.NewFileSet()
+		file, err := parser.ParseFile(fset, rel, data1, parser.ImportsOnly)
+		if err != nil {
+			return data1 // go build reports it, if the file takes part in the build
+		}
+
+		var buf bytes.Buffer
+		var copied int
+		replace := func(node ast.Node, str string) {
+			f := fset.File(node.Pos())
+			_, _ = buf.Write(data1[copied:f.Offset(node.Pos())])
+			_, _ = buf.WriteString(str)
+			copied = f.Offset(node.End())
+		}
 		if filepath.Dir(rel) == "." {
-			data1 = rexPkg.ReplaceAll(data1, []byte("package main"))
+			replace(file.Name, "main")
+		}
+		for _, spec := range file.Imports {
+			importPath, err := strconv.Unquote(spec.Path.Value)
+			if err != nil {
+				return data1
+			}
+			if importPath == bc.pluginPkgPath || strings.HasPrefix(importPath, bc.pluginPkgPath+"/") {
+				replace(spec.Path, strconv.Quote(bc.tmpPkgPath+importPath[len(bc.pluginPkgPath):]))
+			}
 		}
-		data2 := bytes.ReplaceAll(data1, oldImportPath1, newImportPath1)
-		data3 := bytes.ReplaceAll(data2, oldImportPath2, newImportPath2)
-		data4 := bytes.ReplaceAll(data3, oldImportPath3, newImportPath3)
-		data5 := bytes.ReplaceAll(data4, oldImportPath4, newImportPath4)
-		return data5
+		_, _ = buf.Write(data1[copied:])
+		return buf.Bytes()
 	}
 
 	pending := make(chan string, len(files))
-- 
2.43.0


From e22c0e808329d75969f8d330f5330be0b211dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 13/31] fix: stop and clean up properly when a build is
 interrupted

---
 cli/hotswap/cmd/build.go | 44 ++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 8d02b7b..89d47f6 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -270,20 +270,20 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 	done := make(chan struct{})
 	go func() {
 		defer close(done)
-		select {
-		case x := <-chSignal:
+		switch x := <-chSignal; x {
+		case syscall.SIGINT, syscall.SIGTERM:
 			signal.Reset(sigs...)
+			close(interruptProgram)
 			if x == syscall.SIGINT {
-				close(interruptProgram)
 				go func() {
 					time.Sleep(time.Second)
 					fmt.Println("\nPress Ctrl-C again to terminate the program immediately.")
 				}()
 			}
-			bc.removeTmpDir()
 		}
 	}()
 	defer func() {
+		bc.removeTmpDir()
 		select {
 		case chSignal <- syscall.SIGQUIT:
 		default:
@@ -360,6 +360,14 @@ func (bc *buildCmdT) removeTmpDir() {
 	}
 }
 
+func panicIfInterrupted() {
+	select {
+	case <-interruptProgram:
+		panic("interrupted")
+	default:
+	}
+}
+
 func (bc *buildCmdT) commitInfo() string {
 	cmd1 := exec.Command("git", "log", "-1", "--format=%H", "HEAD")
 	cmd1.Dir = bc.pluginDir
@@ -704,7 +712,20 @@ func (bc *buildCmdT) buildPlugin() string {
 	goBuild.Stdout = os.Stdout
 	goBuild.Stderr = os.Stderr
 	goBuild.Env = append(os.Environ(), "GO111MODULE=on")
-	if err := goBuild.Run(); err != nil {
+	panicIfInterrupted()
+	if err := goBuild.Start(); err != nil {
+		panic(err)
+	}
+	built := make(chan struct{})
+	defer close(built)
+	go func() {
+		select {
+		case <-interruptProgram:
+			_ = goBuild.Process.Signal(os.Interrupt)
+		case <-built:
+		}
+	}()
+	if err := goBuild.Wait(); err != nil {
 		panic(err)
 	}
 
@@ -853,6 +874,7 @@ func (bc *buildCmdT) copyFiles(files []string) {
 		panic(err)
 	default:
 	}
+	panicIfInterrupted()
 }
 
 type generatedFiles struct {
@@ -1045,11 +1067,7 @@ func completePlugin(args completePluginArgs) {
 		if len(pkg.GoFiles) == 0 {
 			continue
 		}
-		select {
-		case <-interruptProgram:
-			return
-		default:
-		}
+		panicIfInterrupted()
 		dir := filepath.Dir(pkg.GoFiles[0])
 		for _, synt := range pkg.Syntax {
 			for _, decl := range synt.Decls {
@@ -1142,11 +1160,7 @@ func completePlugin(args completePluginArgs) {
 	genHotswapMain(args, livePackages, &generated)
 
 	for k, pkg := range livePackages {
-		select {
-		case <-interruptProgram:
-			return
-		default:
-		}
+		panicIfInterrupted()
 		genHotswapLive(args, k, pkg, liveFuncs[k], liveTypes[k], &generated)
 	}
 
-- 
2.43.0


From abf8e32bd0140bb6809dd587b16fa292985b521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 14/31] fix: leave the static linking files of other plugins
 alone

---
 cli/hotswap/cmd/build.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 89d47f6..6812bda 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -411,7 +411,7 @@ func (bc *buildCmdT) genStaticPlugin() {
 func findPluginInitFiles(args completePluginArgs) []string {
 	str1 := strings.ReplaceAll(hotswapStaticPluginInitFile, ".", `\.`)
 	str2 := strings.ReplaceAll(str1, "%s", ".+?")
-	rexName := regexp.MustCompile(str2)
+	rexName := regexp.MustCompile("^" + str2 + "$")
 
 	var a []string
 	_ = filepath.WalkDir(args.outputDir, func(path string, d fs.DirEntry, err error) error {
@@ -473,16 +473,18 @@ func removeStaticFiles(args completePluginArgs) {
 	}
 
 	pluginName := filepath.Base(args.pluginDir)
-	allInitFiles := findPluginInitFiles(args)
-	for _, f := range allInitFiles {
-		if err := os.Remove(f); err != nil {
+	var initFiles []string
+	initFile := filepath.Join(args.outputDir, fmt.Sprintf(hotswapStaticPluginInitFile, pluginName))
+	if _, err := os.Lstat(initFile); err == nil {
+		if err := os.Remove(initFile); err != nil {
 			panic(err)
 		}
+		initFiles = append(initFiles, initFile)
 	}
 
 	pluginVarDefFile := filepath.Join(args.outputDir, hotswapStaticPluginsFile)
 	var pluginVarDefFileWantRemoved bool
-	if len(allInitFiles) == 0 {
+	if len(findPluginInitFiles(args)) == 0 {
 		if _, err := os.Stat(pluginVarDefFile); err == nil {
 			pluginVarDefFileWantRemoved = true
 		}
@@ -498,11 +500,11 @@ func removeStaticFiles(args completePluginArgs) {
 		for _, f := range a {
 			fmt.Println("\t" + f)
 		}
-		if len(allInitFiles) > 0 {
+		if len(initFiles) > 0 {
 			fmt.Println()
 			fmt.Println("Removed Files:")
 			fmt.Println(strings.Repeat("=", 30))
-			for _, f := range allInitFiles {
+			for _, f := range initFiles {
 				fmt.Println("\t" + filepath.Base(f))
 			}
 		}
-- 
2.43.0


From f0cf316405db07da270436e13bb299b5d6e6e4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 15/31] fix: --clean removes generated files only

---
 cli/hotswap/cmd/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 6812bda..87997f6 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -468,7 +468,7 @@ func removeStaticFiles(args completePluginArgs) {
 	if args.cleanOnly {
 		bureauDir := filepath.Join(args.pluginDir, hotswapBureauPackageName)
 		if err := hutils.FindDirectory(bureauDir, ""); err == nil {
-			_ = os.RemoveAll(bureauDir)
+			_ = os.Remove(bureauDir) // unless there are other files in it
 		}
 	}
 
-- 
2.43.0


From dcc3cf2368720050c87fa039081ffc4bf277bd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 16/31] fix: refuse static output in a subdirectory whose name
 begins with two dots

---
 cli/hotswap/cmd/build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 87997f6..0b2fa42 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -217,7 +217,8 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		if bc.outputDir == bc.pluginDir {
 			panic("<pluginDir> and <outputDir> must not be identical")
 		}
-		if rel, err := filepath.Rel(bc.pluginDir, bc.outputDir); err == nil && !strings.HasPrefix(rel, "..") {
+		rel, err := filepath.Rel(bc.pluginDir, bc.outputDir)
+		if err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 			panic("<outputDir> must not be a subdirectory of <pluginDir>")
 		}
 	}
-- 
2.43.0


From 18e4f362960c854cf2f404b5af70f471ee64f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 17/31] fix: do not take generated functions for live ones

---
 cli/hotswap/cmd/build.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 0b2fa42..5e04c35 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1046,6 +1046,7 @@ func completePlugin(args completePluginArgs) {
 	}
 
 	var cfg packages.Config
+	cfg.Fset = token.NewFileSet()
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
 	pkgs, err := packages.Load(&cfg, args.tmpPkgPath+"/...")
 	if err != nil {
@@ -1073,6 +1074,9 @@ func completePlugin(args completePluginArgs) {
 		panicIfInterrupted()
 		dir := filepath.Dir(pkg.GoFiles[0])
 		for _, synt := range pkg.Syntax {
+			if _, ok := hotswapFiles[filepath.Base(cfg.Fset.File(synt.Pos()).Name())]; ok {
+				continue // from an earlier run
+			}
 			for _, decl := range synt.Decls {
 				if funcDecl, ok := decl.(*ast.FuncDecl); ok {
 					if funcDecl.Recv != nil {
-- 
2.43.0


From 9c9d055574c0bce567fbefa0667fa53ee063015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 18/31] fix: refuse source that does not parse in any package
 of the plugin

---
 cli/hotswap/cmd/build.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 5e04c35..c4b4ea1 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1072,6 +1072,15 @@ func completePlugin(args completePluginArgs) {
 			continue
 		}
 		panicIfInterrupted()
+		n := numErrs
+		for _, err := range pkg.Errors {
+			if err.Kind == packages.ParseError {
+				printErrorMessage(err.Error() + "\n")
+			}
+		}
+		if numErrs > n {
+			continue
+		}
 		dir := filepath.Dir(pkg.GoFiles[0])
 		for _, synt := range pkg.Syntax {
 			if _, ok := hotswapFiles[filepath.Base(cfg.Fset.File(synt.Pos()).Name())]; ok {
-- 
2.43.0


From 51b44a96edf33aaa20e1bb626ef082bbc59f28ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 19/31] fix: look for live functions and types in the files
 that are built

---
 cli/hotswap/cmd/build.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index c4b4ea1..e2357cb 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1035,6 +1035,20 @@ func genHotswapLive(args completePluginArgs, dir string, pkg *packages.Package,
 	generated.add(file, false)
 }
 
+// constraintFlags returns the build flags that have an influence on which files are built.
+func constraintFlags(flags []string) []string {
+	var a []string
+	for i, f := range flags {
+		switch name := strings.TrimLeft(f, "-"); {
+		case name == "tags" && i+1 < len(flags):
+			a = append(a, "-tags="+flags[i+1])
+		case strings.HasPrefix(name, "tags="), name == "race", name == "msan", name == "asan":
+			a = append(a, f)
+		}
+	}
+	return a
+}
+
 func completePlugin(args completePluginArgs) {
 	timing.processPackagesStart = time.Now()
 	defer func() {
@@ -1048,6 +1062,7 @@ func completePlugin(args completePluginArgs) {
 	var cfg packages.Config
 	cfg.Fset = token.NewFileSet()
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
+	cfg.BuildFlags = constraintFlags(g.BuildFlags)
 	pkgs, err := packages.Load(&cfg, args.tmpPkgPath+"/...")
 	if err != nil {
 		panic(err)
-- 
2.43.0


From fe7fc1e0aac35e9d45977e6fe3fb8c6dbc4949ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 20/31] fix: register static plugins whose names end in _test

---
 cli/hotswap/cmd/build.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index e2357cb..6415047 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -409,6 +409,13 @@ func (bc *buildCmdT) genStaticPlugin() {
 	completePlugin(buildCompletePluginArgs(bc, true, true, epilogue))
 }
 
+func staticPluginInitFile(pluginName string) string {
+	if strings.HasSuffix(pluginName, "_test") {
+		pluginName += ".plugin" // or it would be a test file
+	}
+	return fmt.Sprintf(hotswapStaticPluginInitFile, pluginName)
+}
+
 func findPluginInitFiles(args completePluginArgs) []string {
 	str1 := strings.ReplaceAll(hotswapStaticPluginInitFile, ".", `\.`)
 	str2 := strings.ReplaceAll(str1, "%s", ".+?")
@@ -475,7 +482,7 @@ func removeStaticFiles(args completePluginArgs) {
 
 	pluginName := filepath.Base(args.pluginDir)
 	var initFiles []string
-	initFile := filepath.Join(args.outputDir, fmt.Sprintf(hotswapStaticPluginInitFile, pluginName))
+	initFile := filepath.Join(args.outputDir, staticPluginInitFile(pluginName))
 	if _, err := os.Lstat(initFile); err == nil {
 		if err := os.Remove(initFile); err != nil {
 			panic(err)
@@ -621,7 +628,7 @@ func genHotswapStaticPluginInit(args completePluginArgs, generated *generatedFil
 	if err := tpl.Execute(&buf, &tplArgs); err != nil {
 		panic(err)
 	}
-	fileName := fmt.Sprintf(hotswapStaticPluginInitFile, tplArgs.PluginName)
+	fileName := staticPluginInitFile(tplArgs.PluginName)
 	file := filepath.Join(args.outputDir, fileName)
 	if err := ioutil.WriteFile(file, buf.Bytes(), 0644); err != nil {
 		panic(err)
-- 
2.43.0


From 466e10a93bb3fc13980bf3a9bd9b6f0da29309e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 21/31] fix: refuse to build a plugin over a directory

---
 cli/hotswap/cmd/build.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 6415047..2aa8da2 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -683,6 +683,12 @@ func (bc *buildCmdT) buildPlugin() string {
 		}
 	}
 
+	outputFileName := filepath.Base(bc.pluginDir) + hutils.FileNameExt
+	outputFile := filepath.Join(bc.outputDir, outputFileName)
+	if err := hutils.FindDirectory(outputFile, ""); err == nil {
+		panic(fmt.Errorf("cannot write the plugin to %s. it is a directory", outputFile))
+	}
+
 	timing.copyFilesStart = time.Now()
 	files := bc.collectFiles()
 	bc.copyFiles(files)
@@ -690,9 +696,6 @@ func (bc *buildCmdT) buildPlugin() string {
 
 	completePlugin(buildCompletePluginArgs(bc, false, false, nil))
 
-	outputFileName := filepath.Base(bc.pluginDir) + hutils.FileNameExt
-	outputFile := filepath.Join(bc.outputDir, outputFileName)
-
 	var args []string
 	args = append(args, "build")
 	args = append(args, "-trimpath")
-- 
2.43.0


From eeb5d3bce23d9c9d283cc6c737b01a8fa3af6a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 22/31] fix: ignore files that build constraints exclude in the
 search for the package name

---
 internal/hutils/hutils.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index f84896c..b2621f7 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"io/ioutil"
@@ -46,6 +48,9 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	if err != nil {
 		return "", "", err
 	}
+	if len(pkgs) > 1 {
+		removeIgnoredFiles(pkgs)
+	}
 
 	var pkgName string
 	switch n := len(pkgs); n {
@@ -113,6 +118,20 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	return "", "", errors.New("cannot find go.mod")
 }
 
+// removeIgnoredFiles removes the files that build constraints exclude.
+func removeIgnoredFiles(pkgs map[string]*ast.Package) {
+	for name, pkg := range pkgs {
+		for f := range pkg.Files {
+			if ok, err := build.Default.MatchFile(filepath.Split(f)); err == nil && !ok {
+				delete(pkg.Files, f)
+			}
+		}
+		if len(pkg.Files) == 0 {
+			delete(pkgs, name)
+		}
+	}
+}
+
 func Gofmt(file string) error {
 	cmd := exec.Command("gofmt", "-w", file)
 	cmd.Stdout = os.Stdout
-- 
2.43.0


From a0b869cbfc6ad5db497aacca6895eab290de1d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:19 +0000
Subject: [PATCH 23/31] fix: do not make package names that are keywords or
 begin with a digit

---
 internal/hutils/hutils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index b2621f7..7792bb1 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -68,6 +68,9 @@ func PackageFromDirectory(dir string) (string, string, error) {
 		if pkgName == "" {
 			return "", "", fmt.Errorf("failed to convert %s to a package name", dir)
 		}
+		if !token.IsIdentifier(pkgName) {
+			pkgName = "_" + pkgName
+		}
 	case 1:
 		for _, pkg := range pkgs {
 			if pkg.Name == "" {
-- 
2.43.0


From 55ec4fba277d68f60c4a994ec0a7d667ed999612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:22 +0000
Subject: [PATCH 24/31] fix: recognize -race=true and the like among the build
 flags

---
 cli/hotswap/cmd/build.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 2aa8da2..982f02e 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1052,8 +1052,13 @@ func constraintFlags(flags []string) []string {
 		switch name := strings.TrimLeft(f, "-"); {
 		case name == "tags" && i+1 < len(flags):
 			a = append(a, "-tags="+flags[i+1])
-		case strings.HasPrefix(name, "tags="), name == "race", name == "msan", name == "asan":
+		case strings.HasPrefix(name, "tags="):
 			a = append(a, f)
+		default:
+			switch strings.SplitN(name, "=", 2)[0] {
+			case "race", "msan", "asan":
+				a = append(a, f)
+			}
 		}
 	}
 	return a
-- 
2.43.0


From aa117525583f7ae125323c69fb8cfbb120e0abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:56 +0000
Subject: [PATCH 25/31] fix: search for live things in module mode, as go build
 does

---
 cli/hotswap/cmd/build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 982f02e..98b2dfc 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1077,6 +1077,7 @@ func completePlugin(args completePluginArgs) {
 	var cfg packages.Config
 	cfg.Fset = token.NewFileSet()
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
+	cfg.Env = append(os.Environ(), "GO111MODULE=on")
 	cfg.BuildFlags = constraintFlags(g.BuildFlags)
 	pkgs, err := packages.Load(&cfg, args.tmpPkgPath+"/...")
 	if err != nil {
-- 
2.43.0


From 870973397d0b91099b910484f07eb46588e82faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 26/31] fix: search for live things in plugins below
 directories that patterns skip

---
 cli/hotswap/cmd/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 98b2dfc..074ffba 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1079,7 +1079,7 @@ func completePlugin(args completePluginArgs) {
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
 	cfg.Env = append(os.Environ(), "GO111MODULE=on")
 	cfg.BuildFlags = constraintFlags(g.BuildFlags)
-	pkgs, err := packages.Load(&cfg, args.tmpPkgPath+"/...")
+	pkgs, err := packages.Load(&cfg, "./...")
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 7ac37832178bb767bd2c7b482926490ba3cecf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:19 +0000
Subject: [PATCH 27/31] fix: refuse output directories inside the plugin
 directory behind symbolic links, too

---
 cli/hotswap/cmd/build.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 074ffba..01d1fd2 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -214,10 +214,18 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 	bc.outputDir = absDir2
 
 	if bc.staticLinking {
-		if bc.outputDir == bc.pluginDir {
+		realDir1, err := filepath.EvalSymlinks(bc.pluginDir)
+		if err != nil {
+			panic(err)
+		}
+		realDir2, err := filepath.EvalSymlinks(bc.outputDir)
+		if err != nil {
+			panic(err)
+		}
+		if realDir1 == realDir2 {
 			panic("<pluginDir> and <outputDir> must not be identical")
 		}
-		rel, err := filepath.Rel(bc.pluginDir, bc.outputDir)
+		rel, err := filepath.Rel(realDir1, realDir2)
 		if err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 			panic("<outputDir> must not be a subdirectory of <pluginDir>")
 		}
-- 
2.43.0


From 9a886c422a86505e4bc114d9849642277aa1aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:47 +0000
Subject: [PATCH 28/31] fix: do not count required functions in files that take
 no part in the build

---
 cli/hotswap/cmd/build.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 01d1fd2..eef515f 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -562,8 +562,12 @@ func parseRequiredPluginFuncs(pluginDir, pluginPkgName string) []pluginFunc {
 	if err != nil {
 		panic(err)
 	}
+	inBuild := filesInBuild(pluginDir)
 	for _, pkg := range pkgs {
-		for _, file := range pkg.Files {
+		for fileName, file := range pkg.Files {
+			if !inBuild(fileName) {
+				continue
+			}
 			for _, decl := range file.Decls {
 				funcDecl, ok := decl.(*ast.FuncDecl)
 				if !ok || funcDecl.Recv != nil {
@@ -602,6 +606,30 @@ func parseRequiredPluginFuncs(pluginDir, pluginPkgName string) []pluginFunc {
 	return ret
 }
 
+// filesInBuild returns a function that tells whether a file of the package in dir takes part in the build.
+func filesInBuild(dir string) func(file string) bool {
+	var cfg packages.Config
+	cfg.Mode = packages.NeedFiles
+	cfg.Dir = dir
+	cfg.Env = append(os.Environ(), "GO111MODULE=on")
+	cfg.BuildFlags = constraintFlags(g.BuildFlags)
+	pkgs, err := packages.Load(&cfg, ".")
+	if err != nil || len(pkgs) != 1 || len(pkgs[0].GoFiles) == 0 {
+		return func(string) bool {
+			return true // go build reports what is wrong
+		}
+	}
+
+	m := make(map[string]struct{})
+	for _, f := range pkgs[0].GoFiles {
+		m[filepath.Base(f)] = struct{}{}
+	}
+	return func(file string) bool {
+		_, ok := m[filepath.Base(file)]
+		return ok
+	}
+}
+
 func genHotswapStaticPluginInit(args completePluginArgs, generated *generatedFiles) {
 	pkgName, _, err := hutils.PackageFromDirectory(args.outputDir)
 	if err != nil {
-- 
2.43.0


From 6dfa74c94f911d0e5089e105254b03876bda3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:43 +0000
Subject: [PATCH 29/31] fix: check dense dependency graphs for cycles in
 polynomial time

---
 pluginManager.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index 2f1ad98..a5093e3 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -298,11 +298,12 @@ func (pm *PluginManager) initDeps() error {
 		}
 	}
 
+	sound := make(map[*Plugin]struct{}, len(pm.pluginMap))
 	for _, p := range pm.pluginMap {
 		if len(p.Deps) == 0 {
 			continue
 		}
-		cyclicDeps := pm.checkCyclicDependency(p, make(map[*Plugin]struct{}))
+		cyclicDeps := pm.checkCyclicDependency(p, make(map[*Plugin]struct{}), sound)
 		if len(cyclicDeps) != 0 {
 			var names []string
 			for _, p := range cyclicDeps {
@@ -326,11 +327,14 @@ func (pm *PluginManager) initDeps() error {
 	return nil
 }
 
-func (pm *PluginManager) checkCyclicDependency(p *Plugin, visited map[*Plugin]struct{}) []*Plugin {
+func (pm *PluginManager) checkCyclicDependency(p *Plugin, visited, sound map[*Plugin]struct{}) []*Plugin {
 	me := [1]*Plugin{p}
 	if _, ok := visited[p]; ok {
 		return me[:]
 	}
+	if _, ok := sound[p]; ok {
+		return nil // or dense graphs would take exponential time
+	}
 
 	visited[p] = struct{}{}
 	defer func() {
@@ -339,12 +343,13 @@ func (pm *PluginManager) checkCyclicDependency(p *Plugin, visited map[*Plugin]st
 
 	for _, depName := range p.Deps {
 		dep := pm.pluginMap[name2key(depName)]
-		ret := pm.checkCyclicDependency(dep, visited)
+		ret := pm.checkCyclicDependency(dep, visited, sound)
 		if len(ret) > 0 {
 			return append(me[:], ret...)
 		}
 	}
 
+	sound[p] = struct{}{}
 	return nil
 }
 
-- 
2.43.0


From e31a31d26a3e0a80ee6b6744a2e6613cbc931387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:06 +0000
Subject: [PATCH 30/31] fix: find the package path of plugins behind symbolic
 links as the go command does

---
 internal/hutils/hutils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 7792bb1..fd7d65e 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -40,6 +40,10 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	if err != nil {
 		return "", "", err
 	}
+	absDir, err = filepath.EvalSymlinks(absDir) // as the go command does
+	if err != nil {
+		return "", "", err
+	}
 
 	fset := token.NewFileSet()
 	pkgs, err := parser.ParseDir(fset, dir, func(info os.FileInfo) bool {
-- 
2.43.0


From 5ca67c48deb25177b128906803c39428794f722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:41 +0000
Subject: [PATCH 31/31] fix: pass -mod, -modfile and -overlay on to the search
 for live things, but no values of other flags

---
 cli/hotswap/cmd/build.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index eef515f..53e54ea 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -612,7 +612,7 @@ func filesInBuild(dir string) func(file string) bool {
 	cfg.Mode = packages.NeedFiles
 	cfg.Dir = dir
 	cfg.Env = append(os.Environ(), "GO111MODULE=on")
-	cfg.BuildFlags = constraintFlags(g.BuildFlags)
+	cfg.BuildFlags = listFlags(g.BuildFlags)
 	pkgs, err := packages.Load(&cfg, ".")
 	if err != nil || len(pkgs) != 1 || len(pkgs[0].GoFiles) == 0 {
 		return func(string) bool {
@@ -1081,20 +1081,23 @@ func genHotswapLive(args completePluginArgs, dir string, pkg *packages.Package,
 	generated.add(file, false)
 }
 
-// constraintFlags returns the build flags that have an influence on which files are built.
-func constraintFlags(flags []string) []string {
+// listFlags returns the build flags that have an influence on which files are built and where packages come from.
+func listFlags(flags []string) []string {
 	var a []string
 	for i, f := range flags {
-		switch name := strings.TrimLeft(f, "-"); {
-		case name == "tags" && i+1 < len(flags):
-			a = append(a, "-tags="+flags[i+1])
-		case strings.HasPrefix(name, "tags="):
-			a = append(a, f)
-		default:
-			switch strings.SplitN(name, "=", 2)[0] {
-			case "race", "msan", "asan":
+		if !strings.HasPrefix(f, "-") {
+			continue // the value of a flag
+		}
+		name := strings.TrimLeft(f, "-")
+		switch strings.SplitN(name, "=", 2)[0] {
+		case "tags", "mod", "modfile", "overlay":
+			if strings.Contains(name, "=") {
 				a = append(a, f)
+			} else if i+1 < len(flags) {
+				a = append(a, "-"+name+"="+flags[i+1])
 			}
+		case "race", "msan", "asan":
+			a = append(a, f)
 		}
 	}
 	return a
@@ -1114,7 +1117,7 @@ func completePlugin(args completePluginArgs) {
 	cfg.Fset = token.NewFileSet()
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
 	cfg.Env = append(os.Environ(), "GO111MODULE=on")
-	cfg.BuildFlags = constraintFlags(g.BuildFlags)
+	cfg.BuildFlags = listFlags(g.BuildFlags)
 	pkgs, err := packages.Load(&cfg, "./...")
 	if err != nil {
 		panic(err)
-- 
2.43.0

