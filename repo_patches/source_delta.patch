From 986b904a20bd95d086355e60559ab194d7df3fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:43 +0000
Subject: [PATCH 01/16] fix: a git range no longer hides the ranges listed
 after it

---
 pkg/database/osv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 520ecca..01bddd2 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -139,7 +139,7 @@ type Affects []AffectsRange
 func (a Affects) affectsVersion(pkg internal.PackageDetails) bool {
 	for _, r := range a {
 		if r.Type != TypeEcosystem && r.Type != TypeSemver {
-			return false
+			continue
 		}
 		if r.containsVersion(pkg) {
 			return true
-- 
2.43.0


From 8ad9ae677dfddf2368148fb48233144d071a47c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:45 +0000
Subject: [PATCH 02/16] fix: look up local advisories by the same key they are
 indexed under

---
 pkg/database/mem-check.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/database/mem-check.go b/pkg/database/mem-check.go
index 9cad474..f176f5a 100644
--- a/pkg/database/mem-check.go
+++ b/pkg/database/mem-check.go
@@ -55,7 +55,9 @@ func (db *memDB) Vulnerabilities(includeWithdrawn bool) []OSV {
 func (db *memDB) VulnerabilitiesAffectingPackage(pkg internal.PackageDetails) Vulnerabilities {
 	var vulnerabilities Vulnerabilities
 
-	hash := string(pkg.Ecosystem) + "-" + pkg.Name
+	// this must match how the advisories are indexed, including normalization
+	lookup := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}
+	hash := string(lookup.NormalizedEcosystem()) + "-" + lookup.NormalizedName()
 
 	if vulns, ok := db.vulnerabilities[hash]; ok {
 		for _, vulnerability := range vulns {
-- 
2.43.0


From 83d46151174da245e08d1450d68792da6351c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:21 +0000
Subject: [PATCH 03/16] fix: compare PyPI package names in their normalized
 form on both sides

---
 pkg/database/osv.go | 8 +++++++-
 pkg/database/zip.go | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 01bddd2..77c3cb8 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -57,6 +57,12 @@ func (p Package) NormalizedName() string {
 	return strings.ToLower(name)
 }
 
+// isNamed checks if the given name refers to this package, taking into account
+// that names might be written differently depending on the ecosystem
+func (p Package) isNamed(name string) bool {
+	return p.NormalizedName() == Package{Name: name, Ecosystem: p.Ecosystem}.NormalizedName()
+}
+
 type RangeEvent struct {
 	Introduced   string `json:"introduced,omitempty"`
 	Fixed        string `json:"fixed,omitempty"`
@@ -284,7 +290,7 @@ func areEcosystemsEqual(a, b internal.Ecosystem) bool {
 func (osv *OSV) IsAffected(pkg internal.PackageDetails) bool {
 	for _, affected := range osv.Affected {
 		if areEcosystemsEqual(affected.Package.Ecosystem, pkg.Ecosystem) &&
-			affected.Package.NormalizedName() == pkg.Name {
+			affected.Package.isNamed(pkg.Name) {
 			if len(affected.Ranges) == 0 && len(affected.Versions) == 0 {
 				_, _ = fmt.Fprintf(
 					os.Stderr,
diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 4d7f8f6..2285f7f 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -129,7 +129,7 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 func mightAffectPackages(v OSV, names []string) bool {
 	for _, affected := range v.Affected {
-		if slices.Contains(names, affected.Package.NormalizedName()) {
+		if slices.ContainsFunc(names, affected.Package.isNamed) {
 			return true
 		}
 	}
-- 
2.43.0


From bc337b5d23bb8b3994609433d4d2aa528f738d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:22 +0000
Subject: [PATCH 04/16] fix: do not use a corrupt or missing database cache

---
 pkg/database/zip.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 2285f7f..792917e 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -57,6 +57,9 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 		if err != nil {
 			_, _ = fmt.Fprintf(os.Stderr, "Failed to parse cache from %s: %v\n", cachePath, err)
+
+			// the cache could have been partially decoded before the error
+			cache = nil
 		}
 	}
 
@@ -88,7 +91,7 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 	defer resp.Body.Close()
 
-	if resp.StatusCode == http.StatusNotModified {
+	if resp.StatusCode == http.StatusNotModified && cache != nil {
 		db.UpdatedAt = cache.Date
 
 		return cache.Body, nil
-- 
2.43.0


From 40abeb92cf56c90da1dbc798135c4bb3382a438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:23 +0000
Subject: [PATCH 05/16] fix: give each lockfile its own config so that
 databases are not shared or lost

---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 21ef194..b5f7e0d 100644
--- a/main.go
+++ b/main.go
@@ -445,8 +445,8 @@ func readAllLockfiles(
 			}
 
 			config = &con
-		} else if config.FilePath != "" {
-			// if there's a global config, then copy it - otherwise all lockfiles
+		} else {
+			// copy the global config (even if it's empty) - otherwise all lockfiles
 			// will hold a reference to the same config, which can result in configs
 			// for ecosystem-specific databases being used unnecessarily for lockfiles
 			// that don't have any packages that are part of that ecosystem
-- 
2.43.0


From e36d2db03ce03cb57b8bfd2d3343ea19000f7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:25 +0000
Subject: [PATCH 06/16] fix: report errors when listing a directory

---
 main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index b5f7e0d..ecca608 100644
--- a/main.go
+++ b/main.go
@@ -239,11 +239,13 @@ func findLockfiles(r *reporter.Reporter, pathToLockOrDirectory string, parseAs s
 	file, err := os.Open(pathToLockOrDirectory)
 
 	if err == nil {
-		info, err := file.Stat()
+		var info os.FileInfo
+		info, err = file.Stat()
 
 		if err == nil {
 			if info.IsDir() {
-				dirs, err := file.ReadDir(-1)
+				var dirs []os.DirEntry
+				dirs, err = file.ReadDir(-1)
 
 				if err == nil {
 					for _, dir := range dirs {
-- 
2.43.0


From f38aef280b92b66a64da22c715ff5e2ca0ba2a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:58 +0000
Subject: [PATCH 07/16] fix: do not panic on lockfiles holding a null JSON
 document

---
 pkg/lockfile/parse-bun-lock.go      | 2 +-
 pkg/lockfile/parse-composer-lock.go | 2 +-
 pkg/lockfile/parse-npm-lock.go      | 4 ++--
 pkg/lockfile/parse-nuget-lock.go    | 4 ++--
 pkg/lockfile/parse-pipenv-lock.go   | 2 +-
 pkg/lockfile/parse-renv-lock.go     | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index e4857d8..9aaa34f 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -49,7 +49,7 @@ func structurePackageDetails(pkg []any) (string, string, string) {
 }
 
 func ParseBunLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *BunLockfile
+	var parsedLockfile BunLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-composer-lock.go b/pkg/lockfile/parse-composer-lock.go
index 55d0740..d840c5d 100644
--- a/pkg/lockfile/parse-composer-lock.go
+++ b/pkg/lockfile/parse-composer-lock.go
@@ -34,7 +34,7 @@ func extractCommit(pkg ComposerPackage) string {
 }
 
 func ParseComposerLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *ComposerLock
+	var parsedLockfile ComposerLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index 1ed5d65..d741b0a 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -152,7 +152,7 @@ func parseNpmLock(lockfile NpmLockfile) map[string]PackageDetails {
 }
 
 func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NpmLockfile
+	var parsedLockfile NpmLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -166,5 +166,5 @@ func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, err)
 	}
 
-	return pkgDetailsMapToSlice(parseNpmLock(*parsedLockfile)), nil
+	return pkgDetailsMapToSlice(parseNpmLock(parsedLockfile)), nil
 }
diff --git a/pkg/lockfile/parse-nuget-lock.go b/pkg/lockfile/parse-nuget-lock.go
index 5456526..79681ab 100644
--- a/pkg/lockfile/parse-nuget-lock.go
+++ b/pkg/lockfile/parse-nuget-lock.go
@@ -51,7 +51,7 @@ func parseNuGetLock(lockfile NuGetLockfile) ([]PackageDetails, error) {
 var ErrNuGetUnsupportedLockfileVersion = errors.New("unsupported lockfile version")
 
 func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NuGetLockfile
+	var parsedLockfile NuGetLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -69,5 +69,5 @@ func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, ErrNuGetUnsupportedLockfileVersion)
 	}
 
-	return parseNuGetLock(*parsedLockfile)
+	return parseNuGetLock(parsedLockfile)
 }
diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 47ecbf7..1ecd5d4 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -18,7 +18,7 @@ type PipenvLock struct {
 const PipenvEcosystem = PipEcosystem
 
 func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *PipenvLock
+	var parsedLockfile PipenvLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-renv-lock.go b/pkg/lockfile/parse-renv-lock.go
index e44c29a..c286c96 100644
--- a/pkg/lockfile/parse-renv-lock.go
+++ b/pkg/lockfile/parse-renv-lock.go
@@ -19,7 +19,7 @@ type RenvLockfile struct {
 const CRANEcosystem Ecosystem = "CRAN"
 
 func ParseRenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *RenvLockfile
+	var parsedLockfile RenvLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
-- 
2.43.0


From e8068173ad2fe0373a536c0956bd0a29006ccb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:16 +0000
Subject: [PATCH 08/16] fix: do not panic on malformed package entries in
 lockfiles

---
 pkg/lockfile/parse-bun-lock.go    | 4 ++++
 pkg/lockfile/parse-npm-lock.go    | 3 +--
 pkg/lockfile/parse-pipenv-lock.go | 4 ++--
 pkg/lockfile/parse-pnpm-lock.go   | 2 +-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index 9aaa34f..9d3db9b 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -19,6 +19,10 @@ const BunEcosystem = NpmEcosystem
 // structurePackageDetails returns the name, version, and commit of a package
 // specified as a tuple in a bun.lock
 func structurePackageDetails(pkg []any) (string, string, string) {
+	if len(pkg) == 0 {
+		return "", "", ""
+	}
+
 	str, ok := pkg[0].(string)
 
 	if !ok {
diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index d741b0a..81c3b7a 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -67,8 +67,7 @@ func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[str
 			finalVersion = ""
 		} else {
 			// use the name of the underlying package rather than the alias
-			if strings.HasPrefix(detail.Version, "npm:") {
-				i := strings.LastIndex(detail.Version, "@")
+			if i := strings.LastIndex(detail.Version, "@"); i != -1 && strings.HasPrefix(detail.Version, "npm:") {
 				name = detail.Version[4:i]
 				finalVersion = detail.Version[i+1:]
 			}
diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 1ecd5d4..8744e3f 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -35,7 +35,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 	packages := make(map[string]PackageDetails)
 
 	for name, pipenvPackage := range parsedLockfile.Packages {
-		if pipenvPackage.Version == "" {
+		if len(pipenvPackage.Version) < len("==") {
 			continue
 		}
 
@@ -50,7 +50,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 	}
 
 	for name, pipenvPackage := range parsedLockfile.PackagesDev {
-		if pipenvPackage.Version == "" {
+		if len(pipenvPackage.Version) < len("==") {
 			continue
 		}
 
diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index 8372054..e6330da 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -97,7 +97,7 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 
 	parts = parts[1:]
 
-	if strings.HasPrefix(parts[0], "@") {
+	if strings.HasPrefix(parts[0], "@") && len(parts) > 1 {
 		name = strings.Join(parts[:2], "/")
 		parts = parts[2:]
 	} else {
-- 
2.43.0


From b22752c72e54bd3341e58eebcb861e000c0704ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:50 +0000
Subject: [PATCH 09/16] fix: only treat whole lines as source sections in
 Gemfile.lock

---
 pkg/lockfile/parse-gemfile-lock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/lockfile/parse-gemfile-lock.go b/pkg/lockfile/parse-gemfile-lock.go
index 5c7dc40..9017362 100644
--- a/pkg/lockfile/parse-gemfile-lock.go
+++ b/pkg/lockfile/parse-gemfile-lock.go
@@ -29,10 +29,10 @@ const parserStateRuby parserState = "ruby"
 const parserStateBundledWith parserState = "bundled_with"
 
 func isSourceSection(line string) bool {
-	return strings.Contains(line, lockfileSectionGIT) ||
-		strings.Contains(line, lockfileSectionGEM) ||
-		strings.Contains(line, lockfileSectionPATH) ||
-		strings.Contains(line, lockfileSectionPLUGIN)
+	return line == lockfileSectionGIT ||
+		line == lockfileSectionGEM ||
+		line == lockfileSectionPATH ||
+		line == lockfileSectionPLUGIN
 }
 
 type gemfileLockfileParser struct {
-- 
2.43.0


From be7c2d734092331e8689bea64625d5a8ec65e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:23 +0000
Subject: [PATCH 10/16] fix: do not lose pnpm packages with scoped peer
 dependencies or build metadata

---
 pkg/lockfile/parse-pnpm-lock.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index e6330da..6dfee2f 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -87,6 +87,10 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 		return name, version, nil
 	}
 
+	// peer dependencies in v6 lockfiles are attached to the end within parentheses,
+	// and can include slashes if they're scoped
+	dependencyPath, _, _ = strings.Cut(dependencyPath, "(")
+
 	parts := strings.Split(dependencyPath, "/")
 
 	if len(parts) == 1 {
@@ -128,7 +132,7 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 
 func parseNameAtVersion(value string) (name string, version string) {
 	// look for pattern "name@version", where name is allowed to contain zero or more "@"
-	matches := cachedregexp.MustCompile(`^(.+)@([\w.-]+)(?:\(|$)`).FindStringSubmatch(value)
+	matches := cachedregexp.MustCompile(`^(.+)@([\w.+-]+)(?:\(|$)`).FindStringSubmatch(value)
 
 	if len(matches) != 3 {
 		return name, ""
-- 
2.43.0


From 6365145e4a8a5311314018d99e1b19b6210c2536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:02 +0000
Subject: [PATCH 11/16] fix: do not apply go.mod replacements to the result of
 other replacements

---
 pkg/lockfile/parse-go-lock.go | 61 ++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 33 deletions(-)

diff --git a/pkg/lockfile/parse-go-lock.go b/pkg/lockfile/parse-go-lock.go
index 31a79e6..0961e95 100644
--- a/pkg/lockfile/parse-go-lock.go
+++ b/pkg/lockfile/parse-go-lock.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"golang.org/x/mod/modfile"
+	"golang.org/x/mod/module"
 )
 
 const GoEcosystem Ecosystem = "Go"
@@ -20,6 +21,29 @@ func deduplicatePackages(packages map[string]PackageDetails) map[string]PackageD
 	return details
 }
 
+// findGoReplacement returns the module that should be used in place of the given
+// required module, which will be the module itself if it's not being replaced.
+//
+// Replacements are never applied to the result of other replacements.
+func findGoReplacement(mod module.Version, replaces []*modfile.Replace) module.Version {
+	replacement := mod
+
+	for _, replace := range replaces {
+		// If a version is present on the left side of the arrow (=>), only that specific
+		// version of the module is replaced, taking precedence over any other replacement
+		if replace.Old == mod {
+			return replace.New
+		}
+
+		// If the left version is omitted, all versions of the module are replaced.
+		if replace.Old.Path == mod.Path && replace.Old.Version == "" {
+			replacement = replace.New
+		}
+	}
+
+	return replacement
+}
+
 func ParseGoLock(pathToLockfile string) ([]PackageDetails, error) {
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -36,44 +60,15 @@ func ParseGoLock(pathToLockfile string) ([]PackageDetails, error) {
 	packages := map[string]PackageDetails{}
 
 	for _, require := range parsedLockfile.Require {
+		mod := findGoReplacement(require.Mod, parsedLockfile.Replace)
+
 		packages[require.Mod.Path+"@"+require.Mod.Version] = PackageDetails{
-			Name:      require.Mod.Path,
-			Version:   strings.TrimPrefix(require.Mod.Version, "v"),
+			Name:      mod.Path,
+			Version:   strings.TrimPrefix(mod.Version, "v"),
 			Ecosystem: GoEcosystem,
 			CompareAs: GoEcosystem,
 		}
 	}
 
-	for _, replace := range parsedLockfile.Replace {
-		var replacements []string
-
-		if replace.Old.Version == "" {
-			// If the left version is omitted, all versions of the module are replaced.
-			for k, pkg := range packages {
-				if pkg.Name == replace.Old.Path {
-					replacements = append(replacements, k)
-				}
-			}
-		} else {
-			// If a version is present on the left side of the arrow (=>),
-			// only that specific version of the module is replaced
-			s := replace.Old.Path + "@" + replace.Old.Version
-
-			// A `replace` directive has no effect if the module version on the left side is not required.
-			if _, ok := packages[s]; ok {
-				replacements = []string{s}
-			}
-		}
-
-		for _, replacement := range replacements {
-			packages[replacement] = PackageDetails{
-				Name:      replace.New.Path,
-				Version:   strings.TrimPrefix(replace.New.Version, "v"),
-				Ecosystem: GoEcosystem,
-				CompareAs: GoEcosystem,
-			}
-		}
-	}
-
 	return pkgDetailsMapToSlice(deduplicatePackages(packages)), nil
 }
-- 
2.43.0


From 0b46a3b793077ad4d50d69826f759b2d72c10b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:24 +0000
Subject: [PATCH 12/16] fix: resolve all properties in the version of a pom.xml
 dependency

---
 pkg/lockfile/parse-maven-lock.go | 41 ++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 671a53f..69ee732 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/g-rath/osv-detector/internal/cachedregexp"
 )
@@ -28,24 +29,34 @@ func (mld MavenLockDependency) parseResolvedVersion(version string) string {
 }
 
 func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) string {
-	interpolationReg := cachedregexp.MustCompile(`\${(.+)}`)
+	interpolationReg := cachedregexp.MustCompile(`\${([^}]+)}`)
 
-	results := interpolationReg.FindStringSubmatch(mld.Version)
+	version := mld.Version
 
-	// no interpolation, so just return the version as-is
-	if results == nil {
-		return mld.Version
-	}
-	if val, ok := lockfile.Properties.m[results[1]]; ok {
-		return val
-	}
+	// properties can refer to other properties, but not to themselves
+	for range len(lockfile.Properties.m) + 1 {
+		results := interpolationReg.FindStringSubmatch(version)
+
+		// no (more) interpolation, so just return the version as-is
+		if results == nil {
+			return version
+		}
+
+		val, ok := lockfile.Properties.m[results[1]]
 
-	fmt.Fprintf(
-		os.Stderr,
-		"Failed to resolve version of %s: property \"%s\" could not be found\n",
-		mld.GroupID+":"+mld.ArtifactID,
-		results[1],
-	)
+		if !ok {
+			fmt.Fprintf(
+				os.Stderr,
+				"Failed to resolve version of %s: property \"%s\" could not be found\n",
+				mld.GroupID+":"+mld.ArtifactID,
+				results[1],
+			)
+
+			return "0"
+		}
+
+		version = strings.ReplaceAll(version, results[0], val)
+	}
 
 	return "0"
 }
-- 
2.43.0


From 615b8bd0af312e7c050384993ba174b97375accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:24 +0000
Subject: [PATCH 13/16] fix: use the managed version of pom.xml dependencies
 that do not have their own

---
 pkg/lockfile/parse-maven-lock.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 69ee732..ca6fcc9 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -141,6 +141,11 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 	for _, lockPackage := range parsedLockfile.Dependencies {
 		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
 
+		// dependencies without a version use the one that is managed for them, if any
+		if _, ok := details[finalName]; ok && lockPackage.Version == "" {
+			continue
+		}
+
 		details[finalName] = PackageDetails{
 			Name:      finalName,
 			Version:   lockPackage.ResolveVersion(*parsedLockfile),
-- 
2.43.0


From 5881f3d4b6712d06073acef4645b8ab6a76bdc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:48 +0000
Subject: [PATCH 14/16] fix: support markers and multiple constraints in
 requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 32 +++++++++++---------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 46023fb..2c3fb4a 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -16,33 +16,27 @@ const PipEcosystem Ecosystem = "PyPI"
 //
 //	https://pip.pypa.io/en/stable/reference/requirements-file-format/#example
 func parseLine(line string) PackageDetails {
-	var constraint string
-	name := line
-
 	version := "0.0.0"
 
-	if strings.Contains(line, "==") {
-		constraint = "=="
-	}
+	// environment markers are not part of either the name or version
+	line, _, _ = strings.Cut(line, ";")
+	name, constraints := line, ""
 
-	if strings.Contains(line, ">=") {
-		constraint = ">="
+	if i := strings.IndexAny(line, " \t<>=!~@"); i != -1 {
+		name, constraints = line[:i], line[i:]
 	}
 
-	if strings.Contains(line, "~=") {
-		constraint = "~="
-	}
+	for _, constraint := range strings.Split(constraints, ",") {
+		constraint = strings.TrimSpace(constraint)
 
-	if strings.Contains(line, "!=") {
-		constraint = "!="
-	}
+		if exact, ok := strings.CutPrefix(constraint, "=="); ok {
+			version, _, _ = strings.Cut(strings.TrimSpace(strings.TrimPrefix(exact, "=")), " ")
 
-	if constraint != "" {
-		unprocessedName, unprocessedVersion, _ := strings.Cut(line, constraint)
-		name = strings.TrimSpace(unprocessedName)
+			break
+		}
 
-		if constraint != "!=" {
-			version, _, _ = strings.Cut(strings.TrimSpace(unprocessedVersion), " ")
+		if strings.HasPrefix(constraint, ">=") || strings.HasPrefix(constraint, "~=") {
+			version, _, _ = strings.Cut(strings.TrimSpace(constraint[2:]), " ")
 		}
 	}
 
-- 
2.43.0


From 506469ee6cef5275ced7f5fa26b74a812919b893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:50 +0000
Subject: [PATCH 15/16] fix: do not treat version control urls in
 requirements.txt as packages

---
 pkg/lockfile/parse-requirements-txt.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 2c3fb4a..a16873c 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -78,9 +78,8 @@ func isNotRequirementLine(line string) bool {
 	return line == "" ||
 		// flags are not supported
 		strings.HasPrefix(line, "-") ||
-		// file urls
-		strings.HasPrefix(line, "https://") ||
-		strings.HasPrefix(line, "http://") ||
+		// urls, including those for version control systems
+		cachedregexp.MustCompile(`^[\w+.-]+://`).MatchString(line) ||
 		// file paths are not supported (relative or absolute)
 		strings.HasPrefix(line, ".") ||
 		strings.HasPrefix(line, "/")
-- 
2.43.0


From be20cb5dd26c6fef7fd4c7c80246ba2e1aec42f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:52 +0000
Subject: [PATCH 16/16] fix: include files required with --requirement in
 requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index a16873c..ce96d95 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -121,7 +121,13 @@ func parseRequirementsTxt(pathToLockfile string, requiredAlready map[string]stru
 
 		line = removeComments(line)
 
-		if ar, ok := strings.CutPrefix(line, "-r "); ok {
+		ar, ok := strings.CutPrefix(line, "-r ")
+
+		if !ok {
+			ar, ok = strings.CutPrefix(line, "--requirement ")
+		}
+
+		if ok {
 			ar = filepath.Join(filepath.Dir(pathToLockfile), ar)
 
 			if _, ok := requiredAlready[ar]; ok {
-- 
2.43.0

