From 50c4ddf2f356d85f95840775c5692d33f77d68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 01/40] fix: pass the provider context to data_dig functions

The data_dig provider passed the invocation where the function expects a
hiera.ProviderContext, in a frozen array that cannot hold it, so that every
lookup that reached a data_dig function failed.
---
 internal/datadigprovider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datadigprovider.go b/internal/datadigprovider.go
index 9f621d3..72384d4 100644
--- a/internal/datadigprovider.go
+++ b/internal/datadigprovider.go
@@ -44,7 +44,7 @@ func (dh *dataDigProvider) loadFunction(ic api.Invocation) (pf hiera.DataDig) {
 	he := dh.hierarchyEntry
 	if f, ok := ic.LoadFunction(he); ok {
 		return func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
-			return f.(dgo.Function).Call(vf.Values(ic, key))[0]
+			return f.(dgo.Function).Call(vf.MutableValues(pc, key))[0]
 		}
 	}
 	ic.ReportText(func() string { return fmt.Sprintf(`unresolved function '%s'`, he.Function().Name()) })
-- 
2.43.0


From 05f73227ed228c4b7edb939ac91cec203f5cc321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 02/40] fix: treat a quoted key segment as a string wherever it
 occurs

A quoted segment was taken as a string only when its closing quote ended the
key. Elsewhere, as in a.'1'.b, it was parsed as an index or rejected as an
empty segment.
---
 api/key.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/api/key.go b/api/key.go
index 5104384..f1b21f5 100644
--- a/api/key.go
+++ b/api/key.go
@@ -45,7 +45,7 @@ type (
 // NewKey parses the given string into a Key
 func NewKey(str string) Key {
 	b := bytes.NewBufferString(``)
-	return &key{str, parseUnquoted(b, str, str, []interface{}{})}
+	return &key{str, parseUnquoted(b, str, str, []interface{}{}, false)}
 }
 
 var keyType = tf.NewNamed(`hiera.key`,
@@ -145,8 +145,13 @@ func (k *key) String() string {
 	return k.Type().(dgo.NamedType).ValueString(k)
 }
 
-func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []interface{} {
+// parseUnquoted parses the unquoted characters at the start of the given part. The quoted flag is true when the segment
+// that is currently being parsed contains a quoted sequence. Such a segment is always a string and may be empty.
+func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}, quoted bool) []interface{} {
 	mungedPart := func(ix int, part string) interface{} {
+		if quoted {
+			return part
+		}
 		if i, err := strconv.ParseInt(part, 10, 32); err == nil {
 			if ix == 0 {
 				panic(fmt.Errorf(`key '%s' first segment cannot be an index`, key))
@@ -166,6 +171,7 @@ func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []int
 		case '.':
 			parts = append(parts, mungedPart(len(parts), b.String()))
 			b.Reset()
+			quoted = false
 		default:
 			_, _ = b.WriteRune(c)
 		}
@@ -179,7 +185,7 @@ func parseQuoted(b *bytes.Buffer, q rune, key, part string, parts []interface{})
 			if i == len(part)-1 {
 				return append(parts, b.String())
 			}
-			return parseUnquoted(b, key, part[i+1:], parts)
+			return parseUnquoted(b, key, part[i+1:], parts, true)
 		}
 		_, _ = b.WriteRune(c)
 	}
-- 
2.43.0


From fb7536b3ee4a42beb47be041c63838b89f144eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 03/40] fix: do not parse the root of a key a second time

The providers are given the root of an already parsed key but parsed it again,
so a lookup of 'a.b' (quoted) found the value of a, and a lookup of '1' failed.
---
 api/key.go                  | 15 +++++++++++++++
 provider/configlookupkey.go |  2 +-
 provider/muxlookupkey.go    |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/api/key.go b/api/key.go
index f1b21f5..0880826 100644
--- a/api/key.go
+++ b/api/key.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/tf"
@@ -48,6 +49,20 @@ func NewKey(str string) Key {
 	return &key{str, parseUnquoted(b, str, str, []interface{}{}, false)}
 }
 
+// NewRootKey returns the Key that has the given name as its only part. The name is not parsed, so unlike a string that is
+// passed to NewKey, it may contain dots and quotes or consist entirely of digits.
+func NewRootKey(name string) Key {
+	return &key{rootSource(name), []interface{}{name}}
+}
+
+// rootSource returns a string that NewKey parses into a key that has the given name as its only part.
+func rootSource(name string) string {
+	if _, err := strconv.ParseInt(name, 10, 32); err == nil || name == `` || strings.ContainsAny(name, `.'"`) {
+		return `'` + strings.ReplaceAll(name, `'`, `'"'"'`) + `'`
+	}
+	return name
+}
+
 var keyType = tf.NewNamed(`hiera.key`,
 	func(v dgo.Value) dgo.Value {
 		return NewKey(v.String())
diff --git a/provider/configlookupkey.go b/provider/configlookupkey.go
index 21139f2..d2abd51 100644
--- a/provider/configlookupkey.go
+++ b/provider/configlookupkey.go
@@ -20,7 +20,7 @@ func ConfigLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 func ConfigLookupKeyAt(sc api.ServerContext, configPath, key, moduleName string) dgo.Value {
 	ic := sc.Invocation()
 	cfg := ic.Config(configPath, moduleName)
-	k := api.NewKey(key)
+	k := api.NewRootKey(key)
 	if ic.LookupOptionsMode() {
 		return cfg.LookupOptions(k)
 	}
diff --git a/provider/muxlookupkey.go b/provider/muxlookupkey.go
index 02995bf..61bf7c3 100644
--- a/provider/muxlookupkey.go
+++ b/provider/muxlookupkey.go
@@ -43,7 +43,7 @@ func MuxLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc = sc.ForData()
 	args.Set(0, sc)
 	ic = sc.Invocation()
-	return ic.WithLookup(api.NewKey(key), func() dgo.Value {
+	return ic.WithLookup(api.NewRootKey(key), func() dgo.Value {
 		ic.SetMergeStrategy(sc.Option(`merge`), luOpts)
 		return ic.LookupAndConvertData(func() dgo.Value {
 			return ic.MergeStrategy().MergeLookup(spv, ic, luFunc)
-- 
2.43.0


From 9e232de881947cae58862250ebdbe0d8a2c12ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 04/40] fix: report endless recursion as an error

A value whose interpolation led back to its own key, and a variable that
interpolated itself, overflowed the stack and ended the process. The guard that
the Invocation promises existed in WithKey but nothing called it.
---
 session/interpolate.go |  5 ++++-
 session/invocation.go  | 29 ++++++++++++++++++++++-------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/session/interpolate.go b/session/interpolate.go
index 565b8c7..0a6a934 100644
--- a/session/interpolate.go
+++ b/session/interpolate.go
@@ -161,7 +161,10 @@ func (ic *ivContext) InterpolateString(str string, allowMethods bool) (dgo.Value
 func (ic *ivContext) InterpolateInScope(expr string, allowMethods bool) dgo.Value {
 	key := api.NewKey(expr)
 	if val := ic.Scope().Get(key.Root()); val != nil {
-		val, _ = ic.doInterpolate(val, allowMethods)
+		val = ic.withVariable(key.Root(), func() dgo.Value {
+			iv, _ := ic.doInterpolate(val, allowMethods)
+			return iv
+		})
 		return key.Dig(ic, val)
 	}
 	return nil
diff --git a/session/invocation.go b/session/invocation.go
index e1233b8..064606c 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -32,6 +32,7 @@ const (
 type ivContext struct {
 	api.Session
 	nameStack []string
+	varStack  []string
 	scope     dgo.Keyed
 	luOpts    dgo.Map
 	strategy  api.MergeStrategy
@@ -249,13 +250,15 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 		})
 	}
 
-	v := ic.TopProvider()(ic.ServerContext(options), rootKey)
-	if v != nil {
-		dc := ic.ForData()
-		v = dc.Interpolate(v, true)
-		v = key.Dig(dc, v)
-	}
-	return v
+	return ic.WithKey(key, func() dgo.Value {
+		v := ic.TopProvider()(ic.ServerContext(options), rootKey)
+		if v != nil {
+			dc := ic.ForData()
+			v = dc.Interpolate(v, true)
+			v = key.Dig(dc, v)
+		}
+		return v
+	})
 }
 
 func (ic *ivContext) WithKey(key api.Key, actor dgo.Producer) dgo.Value {
@@ -269,6 +272,18 @@ func (ic *ivContext) WithKey(key api.Key, actor dgo.Producer) dgo.Value {
 	return actor()
 }
 
+// withVariable calls the given actor unless the variable with the given name is already being interpolated
+func (ic *ivContext) withVariable(name string, actor dgo.Producer) dgo.Value {
+	if util.ContainsString(ic.varStack, name) {
+		panic(fmt.Errorf(`recursive interpolation of variable '%s' detected in [%s]`, name, strings.Join(ic.varStack, `, `)))
+	}
+	ic.varStack = append(ic.varStack, name)
+	defer func() {
+		ic.varStack = ic.varStack[:len(ic.varStack)-1]
+	}()
+	return actor()
+}
+
 func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 	if ic.redacted {
 		doer()
-- 
2.43.0


From 48ec7776eb2b8a629637a89a7a0c1c1d82601d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 05/40] fix: restore the scope also when the function given to
 DoWithScope panics

---
 session/invocation.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index 064606c..b1f5594 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -297,10 +297,12 @@ func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 }
 
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
-	sc := ic.scope
-	ic.scope = scope
+	sc, vs := ic.scope, ic.varStack
+	defer func() {
+		ic.scope, ic.varStack = sc, vs
+	}()
+	ic.scope, ic.varStack = scope, nil
 	doer()
-	ic.scope = sc
 }
 
 func (ic *ivContext) Scope() dgo.Keyed {
-- 
2.43.0


From a51ed8225149f84407933b21261601726765d8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 06/40] fix: give a nested lookup its own lookup options

A lookup made by an interpolation used the merge strategy of the lookup that it
was nested in instead of its own lookup options and, with MuxLookupKey, it
replaced the strategy and options of the outer lookup for the rest of its run.
---
 session/invocation.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/session/invocation.go b/session/invocation.go
index b1f5594..cbefb80 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -250,6 +250,16 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 		})
 	}
 
+	if ic.mode != topLevelMode {
+		// A lookup made while another lookup is in progress has its own lookup options and must not
+		// affect, or be affected by, the strategy and options of that other lookup.
+		lic := *ic
+		lic.mode = topLevelMode
+		lic.luOpts = nil
+		lic.strategy = nil
+		ic = &lic
+	}
+
 	return ic.WithKey(key, func() dgo.Value {
 		v := ic.TopProvider()(ic.ServerContext(options), rootKey)
 		if v != nil {
-- 
2.43.0


From 809fa69b5164c2af80904a7b1f77c34e39e3a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 07/40] fix: release the config lock when the config cannot be
 loaded

An invalid hiera.yaml made the lookup that loaded it fail while holding the lock
on that config, so all subsequent lookups in the same session hung forever.
---
 session/invocation.go | 45 ++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index cbefb80..248ac52 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -83,34 +83,47 @@ func (ic *ivContext) Config(configPath string, moduleName string) api.ResolvedCo
 
 	lc := hieraLockPrefix + configPath
 
-	myLock := sync.RWMutex{}
-	myLock.Lock()
-
 	var conf api.Config
-	if lv, loaded := sc.LoadOrStore(lc, &myLock); loaded {
-		// myLock was not stored so unlock it
-		myLock.Unlock()
+	for conf == nil {
+		myLock := sync.RWMutex{}
+		myLock.Lock()
+
+		if lv, loaded := sc.LoadOrStore(lc, &myLock); loaded {
+			// myLock was not stored so unlock it
+			myLock.Unlock()
 
-		if lock, ok := lv.(*sync.RWMutex); ok {
-			// The loaded value is a lock. Wait for new config to be stored in place of
-			// this lock
+			// The loaded value is a lock. Wait for new config to be stored. If it isn't, then the
+			// attempt to load it failed and a new attempt must be made.
+			lock := lv.(*sync.RWMutex)
 			lock.RLock()
-			val, _ := sc.Load(cp)
-			conf = val.(api.Config)
+			if val, ok := sc.Load(cp); ok {
+				conf = val.(api.Config)
+			}
 			lock.RUnlock()
 		} else {
-			conf = lv.(api.Config)
+			conf = loadConfig(sc, configPath, &myLock)
 		}
-	} else {
-		conf = config.New(configPath)
-		sc.Store(cp, conf)
-		myLock.Unlock()
 	}
 	rc := Resolve(ic, conf, moduleName)
 	ic.configs[configPath] = rc
 	return rc
 }
 
+// loadConfig loads the config from the given path and stores it in the given cache. The given lock, which must be held
+// and stored in the cache when this function is called, is released on return. It's also removed from the cache when
+// the config cannot be loaded.
+func loadConfig(sc *sync.Map, configPath string, lock *sync.RWMutex) (conf api.Config) {
+	defer func() {
+		if conf == nil {
+			sc.Delete(hieraLockPrefix + configPath)
+		}
+		lock.Unlock()
+	}()
+	conf = config.New(configPath)
+	sc.Store(hieraConfigsPrefix+configPath, conf)
+	return
+}
+
 func (ic *ivContext) ExplainMode() bool {
 	return ic.explainer != nil
 }
-- 
2.43.0


From 5143e1ec9288362507fcbadb96e2adf874da40dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 08/40] fix: make ModuleLookupKey safe for concurrent use

All invocations of a session shared one unsynchronized map of module providers.
---
 provider/modulelookupkey.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 1b9f94a..78d2930 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -26,13 +26,7 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc := pc.(api.ServerContext)
 	if ci := strings.Index(key, `::`); ci > 0 {
 		modName := strings.ToLower(key[:ci])
-		var mp dgo.Function
-		mpm := moduleProviders(sc)
-		if f := mpm.Get(modName); f != nil {
-			mp = f.(dgo.Function)
-		} else {
-			mp = loadModuleProvider(sc.Invocation(), mpm, modName)
-		}
+		mp := moduleProvider(sc, modName)
 		iv := sc.Invocation()
 		return iv.WithModule(modName, func() dgo.Value {
 			if mp == notFoundLookupKeyFunc {
@@ -45,20 +39,21 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	return nil
 }
 
-func moduleProviders(sc api.ServerContext) dgo.Map {
-	var mp dgo.Map
-	if c, ok := sc.CachedValue(`hiera::moduleproviders`); ok {
-		mp = c.(dgo.Map)
-	} else {
-		mp = vf.MutableMap()
-		sc.Cache(`hiera::moduleproviders`, mp)
+// moduleProvider returns the function that performs lookups in the module with the given name. Each function has its own
+// entry in the cache since the cache, but not a map stored in it, is safe for concurrent use.
+func moduleProvider(sc api.ServerContext, moduleName string) dgo.Function {
+	cacheKey := `hiera::moduleprovider::` + moduleName
+	if c, ok := sc.CachedValue(cacheKey); ok {
+		return c.(dgo.Function)
 	}
+	mp := loadModuleProvider(sc.Invocation(), moduleName)
+	sc.Cache(cacheKey, mp)
 	return mp
 }
 
 var notFoundLookupKeyFunc = vf.Value(func(pc hiera.ProviderContext, key string) dgo.Value { return nil }).(dgo.Function)
 
-func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.Function {
+func loadModuleProvider(ic api.Invocation, moduleName string) dgo.Function {
 	var mp dgo.Function = notFoundLookupKeyFunc
 	if modulePath, ok := ic.SessionOptions().Get(ModulePath).(dgo.String); ok {
 		for _, path := range filepath.SplitList(modulePath.GoString()) {
@@ -68,7 +63,6 @@ func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.F
 			}
 		}
 	}
-	mpm.Put(moduleName, mp)
 	return mp
 }
 
-- 
2.43.0


From 68baa380d039449be1a9df0383ad8fc205d4400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 09/40] fix: make LoadFunction safe for concurrent use

Concurrent lookups that were the first to use a function or a plugin could fail
with an 'attempt to override entry' or a 'namespace is already defined' panic.
---
 session/session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session/session.go b/session/session.go
index 2ee9d34..349a15f 100644
--- a/session/session.go
+++ b/session/session.go
@@ -32,6 +32,7 @@ type session struct {
 	vars     map[string]interface{}
 	scope    dgo.Keyed
 	loader   dgo.Loader
+	loadLock sync.Mutex
 }
 
 const hieraCacheKey = `Hiera::Cache`
@@ -154,6 +155,10 @@ func (s *session) Loader() dgo.Loader {
 }
 
 func (s *session) LoadFunction(he api.Entry) (fn dgo.Function, ok bool) {
+	// The namespaces of the loader are created when they are first requested and that is not safe for concurrent use.
+	s.loadLock.Lock()
+	defer s.loadLock.Unlock()
+
 	n := he.Function().Name()
 	l := s.Loader()
 	fn, ok = l.Namespace(`function`).Get(n).(dgo.Function)
-- 
2.43.0


From d22b0d4dbcf8a0d2b05c47f50b9b507db774b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 10/40] fix: don't share the variables of a REST request with
 other requests

Appending to the slice with the variables of the command could overwrite the
variables of another request that was served at the same time.
---
 hieraserver/rest/rest.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index da49da3..84e6a7f 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -133,7 +133,8 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}
 		opts.Merge = params.Get(`merge`)
 		opts.Type = params.Get(`type`)
-		opts.Variables = append(opts.Variables, params[`var`]...)
+		// Don't append to the slice that is shared by all requests
+		opts.Variables = append(append([]string{}, cmdOpts.Variables...), params[`var`]...)
 		opts.RenderAs = `json`
 		out := bytes.Buffer{}
 		if hiera.LookupAndRender(ctx, &opts, []string{key}, &out) {
-- 
2.43.0


From e021bb0b336caf576c0dc383127da4d190e5f91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 11/40] fix: don't join an inherited plugindir with the config
 root twice

With a relative path to the configuration, the plugins of an entry that inherits
its plugindir were searched for in <root>/<root>/plugin.
---
 config/entry.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/config/entry.go b/config/entry.go
index 3396181..c430f2a 100644
--- a/config/entry.go
+++ b/config/entry.go
@@ -129,7 +129,9 @@ func (e *entry) resolvePluginDir(ic api.Invocation, defaults api.Entry) {
 		if defaults == nil {
 			e.pluginDir = defaultPluginDir()
 		} else {
+			// The directory of the resolved defaults is already relative to the config root
 			e.pluginDir = defaults.PluginDir()
+			return
 		}
 	} else {
 		if d, dc := ic.InterpolateString(e.pluginDir, false); dc {
-- 
2.43.0


From 709783460e4501661a8f336be85276f8bb1f047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 12/40] fix: remove duplicates also when only one source
 contributes to a unique merge

---
 merge/strategy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge/strategy.go b/merge/strategy.go
index 677184b..0ed25b1 100644
--- a/merge/strategy.go
+++ b/merge/strategy.go
@@ -164,7 +164,7 @@ func (d *unique) mergeSingle(rv reflect.Value, vf func(l interface{}) dgo.Value)
 
 func (d *unique) convertValue(v dgo.Value) dgo.Value {
 	if av, ok := v.(dgo.Array); ok {
-		return av.Flatten()
+		return av.Flatten().Unique()
 	}
 	return vf.Values(v)
 }
-- 
2.43.0


From d186006c8534d0a15c927f9be6796ac378f139be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:50 +0000
Subject: [PATCH 13/40] fix: use an absolute HIERA_CONFIGFILE as it is

HIERA_CONFIGFILE is an alternative to the --config option but an absolute path
was joined with the hiera root, so the file was never found.
---
 session/session.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/session/session.go b/session/session.go
index 349a15f..7a45dc0 100644
--- a/session/session.go
+++ b/session/session.go
@@ -121,7 +121,10 @@ func addHieraConfig(options dgo.Map) {
 	} else {
 		fileName = config.FileName
 	}
-	options.Put(api.HieraConfig, filepath.Join(hieraRoot, fileName))
+	if !filepath.IsAbs(fileName) {
+		fileName = filepath.Join(hieraRoot, fileName)
+	}
+	options.Put(api.HieraConfig, fileName)
 }
 
 func (s *session) AliasMap() dgo.AliasMap {
-- 
2.43.0


From ebbf8cb6ae51095fdc2484e96030720ca8fcf0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 14/40] fix: make a deep merge with an empty array produce
 unique elements

The union of two arrays has no duplicates, except that an array with duplicates
was kept as it was when the other array was empty.
---
 merge/deepmerge.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/merge/deepmerge.go b/merge/deepmerge.go
index ec1142c..4857e6b 100644
--- a/merge/deepmerge.go
+++ b/merge/deepmerge.go
@@ -47,10 +47,7 @@ func deep(a, b dgo.Value, options dgo.Map) (dgo.Value, bool) {
 		}
 
 	case dgo.Array:
-		if ab, ok := b.(dgo.Array); ok && ab.Len() > 0 {
-			if a.Len() == 0 {
-				return ab, true
-			}
+		if ab, ok := b.(dgo.Array); ok {
 			an := a.WithAll(ab).Unique()
 			if !an.Equals(a) {
 				return an, true
-- 
2.43.0


From 1318fd58406e6a180ef023c8f9e504a7b86560c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 15/40] fix: don't reveal values in explanations of sensitive
 lookups

DoRedacted promises that no found values are revealed while it executes, but
nothing consulted the flag that it sets, so the explanation of a lookup that is
converted to a sensitive value contained that value in clear text.
---
 session/invocation.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index 248ac52..c03fcfa 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -21,6 +21,9 @@ import (
 const hieraConfigsPrefix = `HieraConfig:`
 const hieraLockPrefix = `HieraLock:`
 
+// redactedText replaces values that must not be revealed
+const redactedText = `[value redacted]`
+
 type invocationMode byte
 
 const (
@@ -200,7 +203,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 	convertToType, convertToArgs := ic.extractConversion()
 
 	var v dgo.Value
-	if typ.Sensitive.Equals(convertToType) {
+	if convertToType != nil && typ.Sensitive.Assignable(convertToType) {
 		ic.DoRedacted(func() { v = fn() })
 	} else {
 		v = fn()
@@ -319,6 +322,14 @@ func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 	}
 }
 
+// redact returns the given value unless it must not be revealed, in which case a text that replaces it is returned
+func (ic *ivContext) redact(value dgo.Value) dgo.Value {
+	if ic.redacted {
+		return vf.String(redactedText)
+	}
+	return value
+}
+
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
 	sc, vs := ic.scope, ic.varStack
 	defer func() {
@@ -350,6 +361,9 @@ func (ic *ivContext) WithInterpolation(expr string, producer dgo.Producer) dgo.V
 	if ic.explainer == nil {
 		return producer()
 	}
+	if ic.redacted {
+		expr = redactedText
+	}
 	defer ic.explainer.Pop()
 	ic.explainer.PushInterpolation(expr)
 	return producer()
@@ -467,13 +481,13 @@ func (ic *ivContext) ReportLocationNotFound() {
 
 func (ic *ivContext) ReportFound(key interface{}, value dgo.Value) {
 	if ic.explainer != nil {
-		ic.explainer.AcceptFound(key, value)
+		ic.explainer.AcceptFound(key, ic.redact(value))
 	}
 }
 
 func (ic *ivContext) ReportMergeResult(value dgo.Value) {
 	if ic.explainer != nil {
-		ic.explainer.AcceptMergeResult(value)
+		ic.explainer.AcceptMergeResult(ic.redact(value))
 	}
 }
 
-- 
2.43.0


From 16bb7f459baffc8ccb392bec205971fc1374c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 16/40] fix: don't use found values as lookup options

MuxLookupKey asks all its functions for the lookup options of a key. Environment
and YamlLookupKey responded with the value of the key, so a hash that happened
to have a key named 'merge' or 'convert_to' was taken for lookup options.
---
 provider/environment.go   | 7 ++++++-
 provider/yamllookupkey.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/provider/environment.go b/provider/environment.go
index 7f02a3a..c7647bd 100644
--- a/provider/environment.go
+++ b/provider/environment.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/vf"
+	"github.com/lyraproj/hiera/api"
 	"github.com/lyraproj/hierasdk/hiera"
 )
 
@@ -13,7 +14,11 @@ import (
 // "env" in which case all current environment variables will be returned as an OrderedMap, or
 // prefixed with "env::" in which case the rest of the key is interpreted as the environment variable
 // to look for.
-func Environment(_ hiera.ProviderContext, key string) dgo.Value {
+func Environment(pc hiera.ProviderContext, key string) dgo.Value {
+	if sc, ok := pc.(api.ServerContext); ok && sc.Invocation().LookupOptionsMode() {
+		// The environment contains no lookup options
+		return nil
+	}
 	if key == `env` {
 		env := os.Environ()
 		em := vf.MapWithCapacity(len(env))
diff --git a/provider/yamllookupkey.go b/provider/yamllookupkey.go
index b0e8858..b214a56 100644
--- a/provider/yamllookupkey.go
+++ b/provider/yamllookupkey.go
@@ -15,7 +15,7 @@ var YamlDataKey = `yaml::data`
 // setup.
 func YamlLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc, ok := pc.(api.ServerContext)
-	if !ok {
+	if !ok || sc.Invocation().LookupOptionsMode() {
 		return nil
 	}
 	data, ok := sc.CachedValue(YamlDataKey)
-- 
2.43.0


From 17ec2ee35b76bba5af2ca332362bd6f15dd93635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 17/40] fix: use the files that match a glob in sorted order

The order was that of the directories on disk, so the precedence between the
files, and hence the outcome of a lookup, varied between file systems.
---
 config/glob.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/glob.go b/config/glob.go
index 7a5ffe3..571662a 100644
--- a/config/glob.go
+++ b/config/glob.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 
 	"github.com/bmatcuk/doublestar"
 	"github.com/lyraproj/dgo/dgo"
@@ -64,6 +65,8 @@ func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	r, _ := ic.InterpolateString(g.Original(), false)
 	rp := filepath.Join(dataDir, r.String())
 	matches, _ := doublestar.Glob(rp)
+	// The matches are in directory order, which varies between file systems
+	sort.Strings(matches)
 	ls := make([]api.Location, len(matches))
 	for i, m := range matches {
 		ls[i] = &path{g.Original(), m, true}
-- 
2.43.0


From 2155ac5fd9121fc389fadbac181543e1d70cb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:54 +0000
Subject: [PATCH 18/40] fix: don't treat the datadir of a glob as a pattern

---
 config/glob.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/config/glob.go b/config/glob.go
index 571662a..4f7c889 100644
--- a/config/glob.go
+++ b/config/glob.go
@@ -2,9 +2,11 @@ package config
 
 import (
 	"fmt"
+	"os"
 	"path/filepath"
 	"reflect"
 	"sort"
+	"strings"
 
 	"github.com/bmatcuk/doublestar"
 	"github.com/lyraproj/dgo/dgo"
@@ -63,7 +65,8 @@ func (g glob) Original() string {
 
 func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	r, _ := ic.InterpolateString(g.Original(), false)
-	rp := filepath.Join(dataDir, r.String())
+	// Only the glob is a pattern. The directory that it is relative to is not.
+	rp := filepath.Join(escapePattern(dataDir), r.String())
 	matches, _ := doublestar.Glob(rp)
 	// The matches are in directory order, which varies between file systems
 	sort.Strings(matches)
@@ -74,6 +77,17 @@ func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	return ls
 }
 
+// escapePattern escapes the characters in the given path that have a special meaning in a pattern. This is not possible
+// on systems where the escape character is the path separator.
+func escapePattern(path string) string {
+	if os.PathSeparator == '\\' {
+		return path
+	}
+	return patternChars.Replace(path)
+}
+
+var patternChars = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `{`, `\{`)
+
 func (g glob) Resolved() string {
 	// This should never happen.
 	panic(fmt.Errorf(`resolved requested on a glob`))
-- 
2.43.0


From 8cc33a72d31e8c613fe4b0ef10274f531972dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 19/40] fix: report a configuration that isn't a hash as an
 error

---
 config/config.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/config/config.go b/config/config.go
index 8a39784..03df49e 100644
--- a/config/config.go
+++ b/config/config.go
@@ -11,6 +11,7 @@ import (
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/tf"
 	"github.com/lyraproj/dgo/util"
+	"github.com/lyraproj/dgo/vf"
 	"github.com/lyraproj/dgoyaml/yaml"
 	"github.com/lyraproj/hiera/api"
 )
@@ -94,12 +95,15 @@ func New(configPath string) api.Config {
 	if err != nil {
 		panic(err)
 	}
-	cfgMap := yv.(dgo.Map)
-	if !cfgType.Instance(cfgMap) {
-		panic(tf.IllegalAssignment(cfgType, cfgMap))
+	if yv == nil {
+		// the document is empty
+		yv = vf.Nil
+	}
+	if !cfgType.Instance(yv) {
+		panic(tf.IllegalAssignment(cfgType, yv))
 	}
 
-	return createConfig(configPath, cfgMap)
+	return createConfig(configPath, yv.(dgo.Map))
 }
 
 func createConfig(path string, hash dgo.Map) api.Config {
-- 
2.43.0


From c7e389c675e18ac33d73495608757c29fbf49820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:28 +0000
Subject: [PATCH 20/40] fix: resolve the configuration in the scope that is in
 effect

---
 session/invocation.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index c03fcfa..beb284b 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -331,11 +331,12 @@ func (ic *ivContext) redact(value dgo.Value) dgo.Value {
 }
 
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
-	sc, vs := ic.scope, ic.varStack
+	sc, vs, cs := ic.scope, ic.varStack, ic.configs
 	defer func() {
-		ic.scope, ic.varStack = sc, vs
+		ic.scope, ic.varStack, ic.configs = sc, vs, cs
 	}()
-	ic.scope, ic.varStack = scope, nil
+	// a resolved configuration depends on the scope that was in effect when it was resolved
+	ic.scope, ic.varStack, ic.configs = scope, nil, map[string]api.ResolvedConfig{}
 	doer()
 }
 
-- 
2.43.0


From 6354b21dd8e4655b1ca40b8f5141e7f7078319a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:58 +0000
Subject: [PATCH 21/40] fix: allow a default function to produce no value

---
 hiera/hiera.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hiera/hiera.go b/hiera/hiera.go
index d67129d..1f03247 100644
--- a/hiera/hiera.go
+++ b/hiera/hiera.go
@@ -110,7 +110,9 @@ func Lookup2(
 		return ensureType(valueType, defaultValue)
 	}
 	if defaultFunc != nil {
-		return ensureType(valueType, defaultFunc())
+		if v := defaultFunc(); v != nil {
+			return ensureType(valueType, v)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From ed05ca4bac6aa812a67a4c759e28362a8d606fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 22/40] fix: resolve a configuration separately for each module
 that uses it

A configuration that was first resolved for a module had no lookup options for other keys when the same invocation
then used it as the main configuration.
---
 session/invocation.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index beb284b..50614ba 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -73,14 +73,16 @@ func (ic *ivContext) Config(configPath string, moduleName string) api.ResolvedCo
 		configPath = ic.SessionOptions().Get(api.HieraConfig).String()
 	}
 
-	if rc, ok := ic.configs[configPath]; ok {
+	// a configuration that is used both as the main configuration and as that of a module is resolved for each
+	rk := moduleName + `:` + configPath
+	if rc, ok := ic.configs[rk]; ok {
 		return rc
 	}
 
 	cp := hieraConfigsPrefix + configPath
 	if val, ok := sc.Load(cp); ok {
 		rc := Resolve(ic, val.(api.Config), moduleName)
-		ic.configs[configPath] = rc
+		ic.configs[rk] = rc
 		return rc
 	}
 
@@ -108,7 +110,7 @@ func (ic *ivContext) Config(configPath string, moduleName string) api.ResolvedCo
 		}
 	}
 	rc := Resolve(ic, conf, moduleName)
-	ic.configs[configPath] = rc
+	ic.configs[rk] = rc
 	return rc
 }
 
-- 
2.43.0


From c4ba5a03d800f1f86d90c6fa4c2e26c3738fbca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:22 +0000
Subject: [PATCH 23/40] fix: accept REST keys with newlines

The pattern that extracts the key from the path didn't match a newline so the
answer was always 404.
---
 hieraserver/rest/rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index 84e6a7f..cd19350 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -70,7 +70,7 @@ func newCommand() *cobra.Command {
 	return cmd
 }
 
-var keyPattern = regexp.MustCompile(`^/lookup/(.*)$`)
+var keyPattern = regexp.MustCompile(`(?s)^/lookup/(.*)$`)
 
 func startServer(_ *cobra.Command, _ []string) {
 	configOptions := map[string]interface{}{
-- 
2.43.0


From 050cd5fc386c96109a1c1cd137dc686e152800cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 24/40] fix: accept command line variables with newlines

The pattern that splits a variable in name and value didn't match a newline so
a variable with several lines was reported as malformed.
---
 hiera/hiera.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiera/hiera.go b/hiera/hiera.go
index 1f03247..0b9f3e9 100644
--- a/hiera/hiera.go
+++ b/hiera/hiera.go
@@ -207,7 +207,7 @@ func DoWithParent(parent context.Context, tp hiera.LookupKey, options interface{
 }
 
 // varSplit splits on either ':' or '=' but not on '::', ':=', '=:' or '=='
-var varSplit = regexp.MustCompile(`\A(.*?[^:=])[:=]([^:=].*)\z`)
+var varSplit = regexp.MustCompile(`(?s)\A(.*?[^:=])[:=]([^:=].*)\z`)
 var needParsePrefix = []string{`{`, `[`, `"`, `'`}
 
 // LookupAndRender performs a lookup using the given command options and arguments and renders the result on the given
-- 
2.43.0


From d1ba76dbe5da8a0f1244139c93f5d6764edbad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 25/40] fix: close the connection after each plugin call

---
 session/pluginloader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 72b724e..d21dd1c 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -336,6 +336,8 @@ func (p *plugin) callPlugin(luType, name string, params url.Values) dgo.Value {
 	client := http.Client{
 		Timeout: time.Second * 5,
 		Transport: &http.Transport{
+			// The transport isn't reused so its connection must not be kept open
+			DisableKeepAlives: true,
 			Dial: func(_, _ string) (net.Conn, error) {
 				return net.Dial(p.network, p.addr)
 			},
-- 
2.43.0


From 3b79dba6208c5645572fbe81ad51b03404747a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:03 +0000
Subject: [PATCH 26/40] fix: don't wait forever for output when a plugin is
 terminated

---
 session/pluginloader.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index d21dd1c..04040cb 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -29,6 +30,7 @@ import (
 type plugin struct {
 	lock      sync.Mutex
 	wGroup    sync.WaitGroup
+	output    []io.Closer
 	process   *os.Process
 	path      string
 	addr      string
@@ -69,7 +71,7 @@ func copyErrToLog(path string, cmdErr io.Reader, wGroup *sync.WaitGroup) {
 	for {
 		line, pfx, err := reader.ReadLine()
 		if err != nil {
-			if err != io.EOF {
+			if err != io.EOF && !errors.Is(err, os.ErrClosed) {
 				log.Errorf(`error reading stderr of plugin %s: %s`, path, err.Error())
 			}
 			return
@@ -97,8 +99,7 @@ func ignoreOut(cmdOut io.Reader, wGroup *sync.WaitGroup) {
 	defer wGroup.Done()
 	toss := make([]byte, 0x1000)
 	for {
-		_, err := cmdOut.Read(toss)
-		if err == io.EOF {
+		if _, err := cmdOut.Read(toss); err != nil {
 			return
 		}
 	}
@@ -160,7 +161,7 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 		}
 	}()
 
-	p := &plugin{path: path, process: cmd.Process}
+	p := &plugin{path: path, process: cmd.Process, output: []io.Closer{cmdOut, cmdErr}}
 	p.wGroup.Add(1)
 	go copyErrToLog(path, cmdErr, &p.wGroup)
 
@@ -204,6 +205,24 @@ func initCmd(opts dgo.Map, path string) *exec.Cmd {
 	return cmd
 }
 
+// awaitOutput waits until everything written by the terminated plugin has been consumed and then closes its output. A
+// process that was started by the plugin may still have the output open, so the time to wait is limited.
+func (p *plugin) awaitOutput() {
+	done := make(chan bool)
+	go func() {
+		p.wGroup.Wait()
+		close(done)
+	}()
+	select {
+	case <-done:
+	case <-time.After(time.Second):
+	}
+	for _, o := range p.output {
+		_ = o.Close()
+	}
+	<-done
+}
+
 func (p *plugin) kill() {
 	p.lock.Lock()
 	process := p.process
@@ -212,7 +231,7 @@ func (p *plugin) kill() {
 	}
 
 	defer func() {
-		p.wGroup.Wait()
+		p.awaitOutput()
 		p.process = nil
 		p.lock.Unlock()
 	}()
-- 
2.43.0


From cae8d0252e05e13255e5e1acc7ef304f50e39b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:57 +0000
Subject: [PATCH 27/40] fix: wait for the process of a plugin that is killed

---
 session/pluginloader.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 04040cb..37409d5 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -153,19 +153,22 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 		panic(fmt.Errorf(`unable to start plugin %s: %s`, path, err.Error()))
 	}
 
-	// Make sure the plugin process is killed if there is an error
+	p := &plugin{path: path, process: cmd.Process, output: []io.Closer{cmdOut, cmdErr}}
+
+	// Make sure the plugin process is gone if there is an error
 	defer func() {
 		if r := recover(); r != nil {
 			_ = cmd.Process.Kill()
+			_, _ = cmd.Process.Wait()
+			p.awaitOutput()
 			panic(r)
 		}
 	}()
 
-	p := &plugin{path: path, process: cmd.Process, output: []io.Closer{cmdOut, cmdErr}}
 	p.wGroup.Add(1)
 	go copyErrToLog(path, cmdErr, &p.wGroup)
 
-	metaCh := make(chan interface{})
+	metaCh := make(chan interface{}, 1)
 	p.wGroup.Add(1)
 	go awaitMetaData(metaCh, cmdOut, &p.wGroup)
 
@@ -245,16 +248,18 @@ func (p *plugin) kill() {
 		done := make(chan bool)
 		go func() {
 			_, _ = process.Wait()
-			done <- true
+			close(done)
 		}()
 		select {
 		case <-done:
 		case <-time.After(time.Second * 3):
 			_ = process.Kill()
+			<-done
 		}
 	} else {
 		// Graceful terminate failed. Just kill it!
 		_ = process.Kill()
+		_, _ = process.Wait()
 	}
 }
 
-- 
2.43.0


From c22d0d525f116c1726a07396cd563fad8d57effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:57 +0000
Subject: [PATCH 28/40] fix: validate the functions that a plugin says it has

---
 session/pluginloader.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 37409d5..226cd29 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -279,11 +279,27 @@ func (p *plugin) initialize(meta map[string]interface{}) {
 		p.network = `tcp`
 	}
 	p.functions, ok = meta[`functions`].(map[string]interface{})
-	if !ok {
+	if !(ok && validFunctions(p.functions)) {
 		panic(fmt.Errorf(`plugin %s did not provide a valid functions map`, p.path))
 	}
 }
 
+// validFunctions returns true if all values in the given map are slices of function names
+func validFunctions(functions map[string]interface{}) bool {
+	for _, v := range functions {
+		names, ok := v.([]interface{})
+		if !ok {
+			return false
+		}
+		for _, n := range names {
+			if _, ok = n.(string); !ok {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 type luDispatch func(string) dgo.Function
 
 func (p *plugin) functionMap() dgo.Value {
-- 
2.43.0


From 824d2f5189b455c3f9c977a0ba74944f3c608a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 29/40] fix: report keys that aren't strings as an error

yaml2json panicked when such a key was found in the topmost hash and could
lose entries when it was found further down.
---
 yaml2json/main.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/yaml2json/main.go b/yaml2json/main.go
index a8c625e..7ec0a8d 100644
--- a/yaml2json/main.go
+++ b/yaml2json/main.go
@@ -3,6 +3,7 @@ package main
 
 import (
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
 	"log"
 	"os"
@@ -10,20 +11,35 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
-func stringKeys(x interface{}) interface{} {
+func stringKeys(x interface{}) (interface{}, error) {
+	var err error
 	switch x := x.(type) {
 	case map[interface{}]interface{}:
 		m := map[string]interface{}{}
 		for k, v := range x {
-			m[k.(string)] = stringKeys(v)
+			s, ok := k.(string)
+			if !ok {
+				return nil, fmt.Errorf(`key %v is not a string`, k)
+			}
+			if m[s], err = stringKeys(v); err != nil {
+				return nil, err
+			}
+		}
+		return m, nil
+	case map[string]interface{}:
+		for k, v := range x {
+			if x[k], err = stringKeys(v); err != nil {
+				return nil, err
+			}
 		}
-		return m
 	case []interface{}:
 		for i, v := range x {
-			x[i] = stringKeys(v)
+			if x[i], err = stringKeys(v); err != nil {
+				return nil, err
+			}
 		}
 	}
-	return x
+	return x, nil
 }
 
 func main() {
@@ -31,10 +47,12 @@ func main() {
 	if err == nil {
 		var body interface{}
 		if err = yaml.Unmarshal(data, &body); err == nil {
-			var bytes []byte
-			if bytes, err = json.MarshalIndent(stringKeys(body), ``, ` `); err == nil {
-				if _, err = os.Stdout.Write(bytes); err == nil {
-					return
+			if body, err = stringKeys(body); err == nil {
+				var bytes []byte
+				if bytes, err = json.MarshalIndent(body, ``, ` `); err == nil {
+					if _, err = os.Stdout.Write(bytes); err == nil {
+						return
+					}
 				}
 			}
 		}
-- 
2.43.0


From 5d6be0964efd09048802bdd256f40a4b23e457f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 30/40] fix: report trailing data in a JSON file as an error

Only the first value of the file was read. The file is also named in the
error.
---
 provider/jsondata.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/provider/jsondata.go b/provider/jsondata.go
index 74e1cee..16f5143 100644
--- a/provider/jsondata.go
+++ b/provider/jsondata.go
@@ -1,6 +1,8 @@
 package provider
 
 import (
+	"encoding/json"
+	"fmt"
 	"io/ioutil"
 	"os"
 
@@ -25,6 +27,10 @@ func JSONData(ctx hiera.ProviderContext) dgo.Map {
 		}
 		panic(err)
 	}
+	var raw json.RawMessage
+	if err = json.Unmarshal(bs, &raw); err != nil {
+		panic(fmt.Errorf("could not unmarshal %s: %s", path, err.Error()))
+	}
 	v := streamer.UnmarshalJSON(bs, nil)
 	if data, ok := v.(dgo.Map); ok {
 		return data
-- 
2.43.0


From f14032d854c7f2a459e2ddcc219feeb367059942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:30 +0000
Subject: [PATCH 31/40] fix: report a convert_to that isn't a string as an
 error

---
 session/invocation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index 50614ba..b4f2634 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -166,8 +166,12 @@ func (ic *ivContext) extractConversion() (convertToType dgo.Type, convertToArgs
 		ts = ct
 	}
 	if ts != nil {
+		tn, ok := ts.(dgo.String)
+		if !ok {
+			panic(fmt.Errorf(`the type in lookup option 'convert_to' must be a string, got %s`, ts.Type()))
+		}
 		ic.AliasMap().Collect(func(aa dgo.AliasAdder) {
-			convertToType = ic.Dialect().ParseType(aa, ts.(dgo.String))
+			convertToType = ic.Dialect().ParseType(aa, tn)
 		})
 	}
 	return
-- 
2.43.0


From 7115957f4f75eeab141fe8e42c916e94defb6e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:30 +0000
Subject: [PATCH 32/40] fix: pass the arguments of a convert_to list as
 separate arguments

---
 session/invocation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index b4f2634..20e4cad 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -217,7 +217,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 
 	if v != nil && convertToType != nil {
 		if convertToArgs != nil {
-			v = vf.Arguments(vf.Values(v).WithAll(convertToArgs))
+			v = vf.ArgumentsFromArray(vf.Values(v).WithAll(convertToArgs))
 		}
 		v = vf.New(convertToType, v)
 	}
-- 
2.43.0


From d17ae0f33afc66754df4d787244ec5b8bab57abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:15 +0000
Subject: [PATCH 33/40] fix: REST server redirected requests for keys that
 contain '//', '.' or '..' path elements

---
 hieraserver/rest/rest.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index cd19350..abb094d 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -145,9 +145,9 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}
 	}
 
-	router := http.NewServeMux()
-	router.HandleFunc("/lookup/", doLookup)
-	return router
+	// A http.ServeMux isn't used since it redirects a request when the path contains the likes of '//' or '/../', and that
+	// path ends with the key to look up.
+	return http.HandlerFunc(doLookup)
 }
 
 func loadCertPool(pemFile string) (*x509.CertPool, error) {
-- 
2.43.0


From 251d0ef61b97f177ca0708ac8eee4bc8e71445d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:37 +0000
Subject: [PATCH 34/40] fix: creating a session froze the scope and other
 values that the caller passed in its options

---
 session/session.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/session/session.go b/session/session.go
index 7a45dc0..a03eee8 100644
--- a/session/session.go
+++ b/session/session.go
@@ -88,7 +88,8 @@ func New(parent context.Context, topProvider hiera.LookupKey, oif interface{}, l
 	} else {
 		scope = vf.Map()
 	}
-	options.Freeze()
+	// The values in the options belong to the caller so they are not frozen in place
+	options = options.FrozenCopy().(dgo.Map)
 
 	vars := map[string]interface{}{
 		hieraCacheKey:            &sync.Map{},
-- 
2.43.0


From caf796961f1f3b99ac3c8be4aeca5428765621ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:22 +0000
Subject: [PATCH 35/40] fix: which of two module directories that differ in
 case only is used depended on directory order

---
 provider/modulelookupkey.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 78d2930..5d96ec8 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -1,6 +1,7 @@
 package provider
 
 import (
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -67,7 +68,8 @@ func loadModuleProvider(ic api.Invocation, moduleName string) dgo.Function {
 }
 
 func loadModule(path, moduleName string) dgo.Function {
-	f, err := os.Open(path)
+	// The entries are sorted by name so that the outcome doesn't depend on the order in which the file system lists them
+	fileInfos, err := ioutil.ReadDir(path)
 	if err != nil {
 		if os.IsNotExist(err) {
 			return nil
@@ -76,12 +78,6 @@ func loadModule(path, moduleName string) dgo.Function {
 	}
 
 	// Lookup module by finding a directory that matches the moduleName using case insensitive string comparison
-	fileInfos, err := f.Readdir(-1)
-	_ = f.Close()
-	if err != nil {
-		panic(err)
-	}
-
 	for _, fi := range fileInfos {
 		if !strings.EqualFold(fi.Name(), moduleName) {
 			continue
-- 
2.43.0


From d7b85322afa1a9b8e681204d4a528a4ce360f511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:58 +0000
Subject: [PATCH 36/40] fix: call plugin functions whose names have characters
 that are special in an URL

---
 session/pluginloader.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 226cd29..f5795ef 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -358,19 +358,10 @@ func makeOptions(pc hiera.ProviderContext) url.Values {
 }
 
 func (p *plugin) callPlugin(luType, name string, params url.Values) dgo.Value {
-	var ad *url.URL
-	var err error
-
+	// The name of the function may contain characters that have a special meaning in an URL
+	ad := url.URL{Scheme: `http`, Host: p.addr, Path: `/` + luType + `/` + name, RawQuery: params.Encode()}
 	if p.network == pluginTransportUnix {
-		ad, err = url.Parse(fmt.Sprintf(`http://%s/%s/%s`, p.network, luType, name))
-	} else {
-		ad, err = url.Parse(fmt.Sprintf(`http://%s/%s/%s`, p.addr, luType, name))
-	}
-	if err != nil {
-		panic(err)
-	}
-	if len(params) > 0 {
-		ad.RawQuery = params.Encode()
+		ad.Host = p.network
 	}
 	us := ad.String()
 	client := http.Client{
-- 
2.43.0


From 632dbcb587dcd294ca90640fd73eec3f385a33b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:53 +0000
Subject: [PATCH 37/40] fix: don't freeze values that are shared with earlier
 lookups when a map is interpolated

---
 session/interpolate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/session/interpolate.go b/session/interpolate.go
index 0a6a934..a8add5c 100644
--- a/session/interpolate.go
+++ b/session/interpolate.go
@@ -60,8 +60,8 @@ func (ic *ivContext) doInterpolate(value dgo.Value, allowMethods bool) (dgo.Valu
 			}
 		})
 		if changed {
-			cp.Freeze()
-			h = cp
+			// The values may be shared with others so they are not frozen in place
+			h = cp.FrozenCopy().(dgo.Map)
 		}
 		return h, changed
 	}
-- 
2.43.0


From 0e007023a38042fdbcb1264fddff50958592fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:15 +0000
Subject: [PATCH 38/40] fix: functions of different kinds in a plugin may have
 the same name

---
 session/pluginloader.go | 17 +++++++++++++----
 session/session.go      |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index f5795ef..dc3e34b 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -22,6 +22,7 @@ import (
 	"github.com/lyraproj/dgo/loader"
 	"github.com/lyraproj/dgo/streamer"
 	"github.com/lyraproj/dgo/vf"
+	"github.com/lyraproj/hiera/api"
 	"github.com/lyraproj/hierasdk/hiera"
 	log "github.com/sirupsen/logrus"
 )
@@ -302,22 +303,30 @@ func validFunctions(functions map[string]interface{}) bool {
 
 type luDispatch func(string) dgo.Function
 
+// pluginFunctionKey returns the name that a plugin function is loaded by. Functions of different kinds may have the same
+// name.
+func pluginFunctionKey(kind api.FunctionKind, name string) string {
+	return string(kind) + `/` + name
+}
+
 func (p *plugin) functionMap() dgo.Value {
 	m := vf.MutableMap()
 	for k, v := range p.functions {
 		names := v.([]interface{})
 		var df luDispatch
-		switch k {
-		case `data_dig`:
+		kind := api.FunctionKind(k)
+		switch kind {
+		case api.KindDataDig:
 			df = p.dataDigDispatch
-		case `data_hash`:
+		case api.KindDataHash:
 			df = p.dataHashDispatch
 		default:
+			kind = api.KindLookupKey
 			df = p.lookupKeyDispatch
 		}
 		for _, x := range names {
 			n := x.(string)
-			m.Put(n, df(n))
+			m.Put(pluginFunctionKey(kind, n), df(n))
 		}
 	}
 	return loader.Multiple(m)
diff --git a/session/session.go b/session/session.go
index a03eee8..a578600 100644
--- a/session/session.go
+++ b/session/session.go
@@ -198,7 +198,7 @@ func (s *session) LoadFunction(he api.Entry) (fn dgo.Function, ok bool) {
 		}
 	}
 
-	fn, ok = l.Get(n).(dgo.Function)
+	fn, ok = l.Get(pluginFunctionKey(he.Function().Kind(), n)).(dgo.Function)
 	return fn, ok
 }
 
-- 
2.43.0


From f67118eafa91627ed347e50132bcf3ce68db8f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:00 +0000
Subject: [PATCH 39/40] fix: find a module whose directory is a symbolic link

---
 provider/modulelookupkey.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 5d96ec8..380e441 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -82,7 +82,8 @@ func loadModule(path, moduleName string) dgo.Function {
 		if !strings.EqualFold(fi.Name(), moduleName) {
 			continue
 		}
-		if !fi.IsDir() {
+		// The entry may be a symbolic link to a directory
+		if di, err := os.Stat(filepath.Join(path, fi.Name())); err != nil || !di.IsDir() {
 			break
 		}
 		configPath := filepath.Join(path, fi.Name(), config.FileName)
-- 
2.43.0


From 14b5904c23c27bc3ad665035dd1cb24a94842545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:18 +0000
Subject: [PATCH 40/40] fix: mapped_paths was misspelled in the schema, so it
 could be combined with other locations

---
 schema/hiera_v5.yaml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/hiera_v5.yaml b/schema/hiera_v5.yaml
index 6e20887..44daa1a 100644
--- a/schema/hiera_v5.yaml
+++ b/schema/hiera_v5.yaml
@@ -109,7 +109,7 @@ definitions:
       - required:
           - uris
       - required:
-          - mappded_paths
+          - mapped_paths
       - not:
           anyOf:
             - required:
@@ -125,7 +125,7 @@ definitions:
             - required:
                 - uris
             - required:
-                - mappded_paths
+                - mapped_paths
   providerFunction:
     oneOf:
       - not:
-- 
2.43.0

