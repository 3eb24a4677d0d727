From 43f72c66a26f78b0e5c3bb5dabc6f77906b9f4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:54 +0000
Subject: [PATCH 01/24] fix: bootstrap Lookup must refresh an expired or
 removed registry

A long-lived client kept answering from its in-memory registry after the
cached file had expired, or had been removed from the cache.
---
 bootstrap/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 7fd7fa2..c38dea3 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -313,12 +313,16 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 	c.Verbose(fmt.Sprintf("  bootstrap: Cache state: %s: %s", c.filenameFor(registry), state))
 
 	var forceDownload bool
-	if state == cache.ShouldReload {
+	switch state {
+	case cache.ShouldReload:
 		if err := c.reloadFromCache(registry); err != nil {
 			forceDownload = true
 
 			c.Verbose(fmt.Sprintf("  bootstrap: Cache load error (%s), downloading...", err))
 		}
+	case cache.Absent, cache.Expired:
+		// The in-memory registry (if any) is out of date.
+		forceDownload = true
 	}
 
 	if c.registries[registry] == nil || forceDownload {
-- 
2.43.0


From 63f68a7fbe43ddc0920f03f67b32551e1471249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:57 +0000
Subject: [PATCH 02/24] fix: bootstrap client must not forget that a reload
 from the cache failed

After a failed reload (unreadable or damaged cache file) followed by a
failed download, the cache reported the file as Good, and the client went
on answering from its old in-memory registry, past the cache timeout.
---
 bootstrap/client.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index c38dea3..0ffec7f 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -149,6 +149,10 @@ type Client struct {
 	Verbose func(text string)
 
 	registries map[RegistryType]Registry
+
+	// Registries for which reloading the cached file failed. The in-memory
+	// registry is then older than the cached file.
+	reloadFailed map[RegistryType]bool
 }
 
 // A Registry implements bootstrap lookups.
@@ -171,6 +175,10 @@ func (c *Client) init() {
 		c.registries = make(map[RegistryType]Registry)
 	}
 
+	if c.reloadFailed == nil {
+		c.reloadFailed = make(map[RegistryType]bool)
+	}
+
 	if c.BaseURL == nil {
 		c.BaseURL, _ = url.Parse(DefaultBaseURL)
 	}
@@ -203,6 +211,7 @@ func (c *Client) DownloadWithContext(ctx context.Context, registry RegistryType)
 	}
 
 	c.registries[registry] = s
+	c.reloadFailed[registry] = false
 
 	return nil
 }
@@ -251,13 +260,22 @@ func (c *Client) download(ctx context.Context, registry RegistryType) ([]byte, R
 }
 
 func (c *Client) freshenFromCache(registry RegistryType) {
-	if c.Cache.State(c.filenameFor(registry)) == cache.ShouldReload {
+	if c.shouldReload(registry, c.Cache.State(c.filenameFor(registry))) {
 		// Best-effort refresh; on failure the existing in-memory registry is kept.
 		_ = c.reloadFromCache(registry)
 	}
 }
 
+// shouldReload returns true if the cached file, in cache state |state|, needs
+// to be loaded: It's newer than the in-memory registry, or the previous attempt
+// to load it failed.
+func (c *Client) shouldReload(registry RegistryType, state cache.FileState) bool {
+	return state == cache.ShouldReload || (state == cache.Good && c.reloadFailed[registry])
+}
+
 func (c *Client) reloadFromCache(registry RegistryType) error {
+	c.reloadFailed[registry] = true
+
 	json, err := c.Cache.Load(c.filenameFor(registry))
 	if err != nil {
 		return err
@@ -270,6 +288,7 @@ func (c *Client) reloadFromCache(registry RegistryType) error {
 	}
 
 	c.registries[registry] = s
+	c.reloadFailed[registry] = false
 
 	return nil
 }
@@ -313,14 +332,14 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 	c.Verbose(fmt.Sprintf("  bootstrap: Cache state: %s: %s", c.filenameFor(registry), state))
 
 	var forceDownload bool
-	switch state {
-	case cache.ShouldReload:
+	switch {
+	case c.shouldReload(registry, state):
 		if err := c.reloadFromCache(registry); err != nil {
 			forceDownload = true
 
 			c.Verbose(fmt.Sprintf("  bootstrap: Cache load error (%s), downloading...", err))
 		}
-	case cache.Absent, cache.Expired:
+	case state == cache.Absent, state == cache.Expired:
 		// The in-memory registry (if any) is out of date.
 		forceDownload = true
 	}
-- 
2.43.0


From 505d178448231dc0d7d7af85c6602f2d16f66ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:00 +0000
Subject: [PATCH 03/24] fix: reject bootstrap documents without a services
 array

Any JSON object (or null), e.g. an error document of a proxy, was accepted
as an empty registry, cached, and used until the cache timeout.
---
 bootstrap/file.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bootstrap/file.go b/bootstrap/file.go
index ff74dd3..2fcea9f 100644
--- a/bootstrap/file.go
+++ b/bootstrap/file.go
@@ -42,6 +42,10 @@ func NewFile(jsonDocument []byte) (*File, error) {
 		return nil, err
 	}
 
+	if doc.Services == nil {
+		return nil, errors.New("malformed bootstrap (no services array)")
+	}
+
 	f := &File{}
 	f.Description = doc.Description
 	f.Publication = doc.Publication
-- 
2.43.0


From cd40c32a29e5505c4120fc72033b36a5bdc932a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:03 +0000
Subject: [PATCH 04/24] fix: save disk cache files atomically

A crash or failed write (e.g. full disk) during a save destroyed the
previously cached file, and other processes could load a partial file.
---
 bootstrap/cache/disk_cache.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/bootstrap/cache/disk_cache.go b/bootstrap/cache/disk_cache.go
index d114f8a..39a8f29 100644
--- a/bootstrap/cache/disk_cache.go
+++ b/bootstrap/cache/disk_cache.go
@@ -102,7 +102,7 @@ func (d *DiskCache) Save(filename string, data []byte) error {
 		return err
 	}
 
-	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {
+	if err := d.writeFile(filename, data); err != nil {
 		return err
 	}
 
@@ -116,6 +116,32 @@ func (d *DiskCache) Save(filename string, data []byte) error {
 	return nil
 }
 
+// writeFile atomically replaces the file |filename| with |data|.
+//
+// Other processes (and this one, after a crash or failed write) see either the
+// previous or the new file, never a partial one.
+func (d *DiskCache) writeFile(filename string, data []byte) error {
+	f, err := os.CreateTemp(d.Dir, filename+".tmp*")
+	if err != nil {
+		return err
+	}
+
+	_, err = f.Write(data)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(f.Name(), d.cacheDirPath(filename))
+	}
+
+	if err != nil {
+		_ = os.Remove(f.Name())
+	}
+
+	return err
+}
+
 // Load loads the file |filename| from disk.
 //
 // Since Service Registry files do not change much, the file is returned even
-- 
2.43.0


From d9c705bf85478d03a952789c14ba9e295ae7f6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:06 +0000
Subject: [PATCH 05/24] fix: Request.URL must not modify the server URL

It cleared the query and fragment of the caller's (or the bootstrap
registry's) URL, so that they were never part of the result.
---
 request.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request.go b/request.go
index decad0b..133c986 100644
--- a/request.go
+++ b/request.go
@@ -263,7 +263,8 @@ func (r *Request) URL() *url.URL {
 		resultURL = new(url.URL)
 		*resultURL = *r.Server
 	} else {
-		tempURL := r.Server
+		tempURL := new(url.URL)
+		*tempURL = *r.Server
 		tempURL.RawQuery = ""
 		tempURL.Fragment = ""
 		tempURLString := tempURL.String()
-- 
2.43.0


From 01252331af61cce13ae1e55729c8f40baa761b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:09 +0000
Subject: [PATCH 06/24] fix: apply Request.Timeout

The documented maximum request duration was ignored.
---
 client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client.go b/client.go
index 9c422af..3f1fe43 100644
--- a/client.go
+++ b/client.go
@@ -119,6 +119,14 @@ func (c *Client) Do(req *Request) (*Response, error) {
 		c.Verbose = func(text string) {}
 	}
 
+	// Apply the request timeout?
+	if req.Timeout > 0 {
+		ctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)
+		defer cancelFunc()
+
+		req = req.WithContext(ctx)
+	}
+
 	c.Verbose("")
 	c.Verbose("client: Running...")
 	c.Verbose(fmt.Sprintf("client: Request type  : %s", req.Type))
-- 
2.43.0


From d103d2574e28872de3e20791e28c0ed3567a4344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:12 +0000
Subject: [PATCH 07/24] fix: return an InputError if no RDAP URL can be
 constructed

Do panicked on e.g. an IP query with an invalid percent escape.
---
 client.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 3f1fe43..9d55f99 100644
--- a/client.go
+++ b/client.go
@@ -189,7 +189,15 @@ func (c *Client) Do(req *Request) (*Response, error) {
 	}
 
 	for i, r := range reqs {
-		c.Verbose(fmt.Sprintf("client: RDAP URL #%d is %s", i, r.URL()))
+		u := r.URL()
+		if u == nil {
+			return resp, &ClientError{
+				Type: InputError,
+				Text: fmt.Sprintf("Cannot construct an RDAP URL for query '%s'", r.Query),
+			}
+		}
+
+		c.Verbose(fmt.Sprintf("client: RDAP URL #%d is %s", i, u))
 	}
 
 	for _, r := range reqs {
-- 
2.43.0


From e1d71423219b4c9fb472ebf80e206993d4e8da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:15 +0000
Subject: [PATCH 08/24] fix: report the RDAP error code, not its address

---
 client_error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client_error.go b/client_error.go
index 10cce41..f4bf38c 100644
--- a/client_error.go
+++ b/client_error.go
@@ -46,10 +46,15 @@ func isClientError(t ClientErrorType, err error) bool {
 }
 
 func clientErrorFromRDAPError(e *Error) *ClientError {
+	var errorCode uint16
+	if e.ErrorCode != nil {
+		errorCode = *e.ErrorCode
+	}
+
 	return &ClientError{
 		Type: RDAPServerError,
 		Text: fmt.Sprintf("Server returned error code %d, title='%s', description='%s'",
-			e.ErrorCode,
+			errorCode,
 			e.Title,
 			strings.Join(e.Description, " ")),
 	}
-- 
2.43.0


From e8a04e439ed36680661792142139638e40aa6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:18 +0000
Subject: [PATCH 09/24] fix: --raw and --json must print the body of the server
 which answered

They printed that of the first server tried, even if it had failed.
---
 cli.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli.go b/cli.go
index 86c0ae9..9a76119 100644
--- a/cli.go
+++ b/cli.go
@@ -511,6 +511,9 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 		fmt.Fprintln(stderr, "")
 	}
 
+	// The response body is that of the last server tried.
+	body := resp.HTTP[len(resp.HTTP)-1].Body
+
 	// Output formatting.
 	if !*outputFormatText && !*outputFormatWhois && !*outputFormatJSON && !*outputFormatRaw {
 		*outputFormatText = true
@@ -528,13 +531,13 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 
 	// Print the raw response out?
 	if *outputFormatRaw {
-		fmt.Fprintf(stdout, "%s", resp.HTTP[0].Body)
+		fmt.Fprintf(stdout, "%s", body)
 	}
 
 	// Print the response, JSON pretty-printed?
 	if *outputFormatJSON {
 		var out bytes.Buffer
-		if err := json.Indent(&out, resp.HTTP[0].Body, "", "  "); err != nil {
+		if err := json.Indent(&out, body, "", "  "); err != nil {
 			printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))
 			return 1
 		}
-- 
2.43.0


From d82a101d2e078d00e8d8396057ae5168fb0f6ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:20 +0000
Subject: [PATCH 10/24] fix: exit with an error if the CLI output cannot be
 written

Write errors (closed pipe, full disk) were ignored except with --json, and
the exit status was 0.
---
 cli.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/cli.go b/cli.go
index 9a76119..26c368c 100644
--- a/cli.go
+++ b/cli.go
@@ -514,6 +514,10 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	// The response body is that of the last server tried.
 	body := resp.HTTP[len(resp.HTTP)-1].Body
 
+	// Note errors writing the output.
+	output := &errorWriter{w: stdout}
+	stdout = output
+
 	// Output formatting.
 	if !*outputFormatText && !*outputFormatWhois && !*outputFormatJSON && !*outputFormatRaw {
 		*outputFormatText = true
@@ -561,9 +565,36 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 
 	_ = fetchRolesFlag
 
+	if output.err != nil {
+		printError(stderr, fmt.Sprintf("Error writing output: %s", output.err))
+		return 1
+	}
+
 	return 0
 }
 
+// errorWriter is an io.Writer which remembers the first error of |w|, and
+// writes nothing thereafter.
+type errorWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (e *errorWriter) Write(p []byte) (int, error) {
+	if e.err != nil {
+		return 0, e.err
+	}
+
+	n, err := e.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+
+	e.err = err
+
+	return n, err
+}
+
 func safePrint(v string) string {
 	removeBadChars := func(r rune) rune {
 		switch r {
-- 
2.43.0


From 18e676a14f27f4ae4b6190630c2c5d71f1caab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:23 +0000
Subject: [PATCH 11/24] fix: data race on the sandbox path

Concurrent sandboxed CLI runs initialised it without synchronisation.
---
 sandbox/file.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sandbox/file.go b/sandbox/file.go
index 0135ea1..e85a745 100644
--- a/sandbox/file.go
+++ b/sandbox/file.go
@@ -10,9 +10,10 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"sync"
 )
 
-var sandboxPath string
+var sandboxPath = sync.OnceValue(findPackagePath)
 
 // LoadFile reads the named sandboxed file and returns its contents. It returns
 // an error if the file is not one of the recognised sandbox files.
@@ -23,11 +24,7 @@ func LoadFile(filename string) ([]byte, error) {
 
 	var body []byte
 
-	if len(sandboxPath) == 0 {
-		sandboxPath = findPackagePath()
-	}
-
-	body, err := os.ReadFile(path.Join(sandboxPath, filename))
+	body, err := os.ReadFile(path.Join(sandboxPath(), filename))
 	if err != nil {
 		log.Panic(err)
 	}
-- 
2.43.0


From 626f739361bfa4333f2d601605efef51683569e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:26 +0000
Subject: [PATCH 12/24] fix: return an error if a sandbox file cannot be read

LoadFile panicked, e.g. in a binary installed without the source tree.
---
 sandbox/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandbox/file.go b/sandbox/file.go
index e85a745..076e6c7 100644
--- a/sandbox/file.go
+++ b/sandbox/file.go
@@ -26,7 +26,7 @@ func LoadFile(filename string) ([]byte, error) {
 
 	body, err := os.ReadFile(path.Join(sandboxPath(), filename))
 	if err != nil {
-		log.Panic(err)
+		return nil, err
 	}
 
 	return body, nil
-- 
2.43.0


From 3c73928613d92312c9618791dca74a0627145d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:26 +0000
Subject: [PATCH 13/24] fix: disk cache must notice every replacement of a
 loaded file

A file with an older mtime than the one loaded was taken for the loaded one,
although another process had put it in place later (saves by other processes
may overtake each other, and clocks may be set back). Save recorded the mtime
of whatever file was in place afterwards, which may be another process's.
---
 bootstrap/cache/disk_cache.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/bootstrap/cache/disk_cache.go b/bootstrap/cache/disk_cache.go
index 39a8f29..a2ebee0 100644
--- a/bootstrap/cache/disk_cache.go
+++ b/bootstrap/cache/disk_cache.go
@@ -102,13 +102,9 @@ func (d *DiskCache) Save(filename string, data []byte) error {
 		return err
 	}
 
-	if err := d.writeFile(filename, data); err != nil {
-		return err
-	}
-
-	fileModTime, err := d.modTime(filename)
+	fileModTime, err := d.writeFile(filename, data)
 	if err != nil {
-		return fmt.Errorf("file %s failed to save correctly: %w", filename, err)
+		return err
 	}
 
 	d.lastLoadedModTime[filename] = fileModTime
@@ -116,14 +112,15 @@ func (d *DiskCache) Save(filename string, data []byte) error {
 	return nil
 }
 
-// writeFile atomically replaces the file |filename| with |data|.
+// writeFile atomically replaces the file |filename| with |data|, returning its
+// mtime.
 //
 // Other processes (and this one, after a crash or failed write) see either the
 // previous or the new file, never a partial one.
-func (d *DiskCache) writeFile(filename string, data []byte) error {
+func (d *DiskCache) writeFile(filename string, data []byte) (time.Time, error) {
 	f, err := os.CreateTemp(d.Dir, filename+".tmp*")
 	if err != nil {
-		return err
+		return time.Time{}, err
 	}
 
 	_, err = f.Write(data)
@@ -131,15 +128,21 @@ func (d *DiskCache) writeFile(filename string, data []byte) error {
 		err = closeErr
 	}
 
+	var fileInfo os.FileInfo
+	if err == nil {
+		fileInfo, err = os.Stat(f.Name())
+	}
+
 	if err == nil {
 		err = os.Rename(f.Name(), d.cacheDirPath(filename))
 	}
 
 	if err != nil {
 		_ = os.Remove(f.Name())
+		return time.Time{}, err
 	}
 
-	return err
+	return fileInfo.ModTime(), nil
 }
 
 // Load loads the file |filename| from disk.
@@ -178,8 +181,10 @@ func (d *DiskCache) State(filename string) FileState {
 		if fileModTime.After(expiry) {
 			state = ShouldReload
 
+			// Any other mtime means another file: mtimes aren't necessarily in
+			// the order in which files were put in place.
 			lastLoadedModTime, haveLoaded := d.lastLoadedModTime[filename]
-			if haveLoaded && !fileModTime.After(lastLoadedModTime) {
+			if haveLoaded && fileModTime.Equal(lastLoadedModTime) {
 				state = Good
 			}
 		} else {
-- 
2.43.0


From 2c680b9dba986492fa42d1a47d7a95f46e6ae257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:16 +0000
Subject: [PATCH 14/24] fix: stop after cancellation instead of going on to the
 next server

Do went on through the remaining servers after its context was cancelled,
recording servers it never contacted and reporting that none of them works.
---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 9d55f99..1b987ee 100644
--- a/client.go
+++ b/client.go
@@ -210,7 +210,7 @@ func (c *Client) Do(req *Request) (*Response, error) {
 			c.Verbose(fmt.Sprintf("client: error: %s",
 				httpResponse.Error))
 
-			if r.Context().Err() == context.DeadlineExceeded {
+			if r.Context().Err() != nil {
 				return resp, httpResponse.Error
 			}
 
-- 
2.43.0


From c5609af591c6dc3945e53e4efcac7e03e0eeca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:44 +0000
Subject: [PATCH 15/24] fix: close the CLI's idle connections

Each RunCLI has its own http.Transport, whose kept-alive connections (and
their goroutines) were never closed: a process running it repeatedly
accumulated them.
---
 cli.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli.go b/cli.go
index 26c368c..e23b3b0 100644
--- a/cli.go
+++ b/cli.go
@@ -466,6 +466,7 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 		Proxy:           http.ProxyFromEnvironment,
 		TLSClientConfig: tlsConfig,
 	}
+	defer transport.CloseIdleConnections()
 
 	// Setup http.RoundTripper for http clients
 	bs.HTTP = &http.Client{
-- 
2.43.0


From de421aa59bff7cb5f3e3e203e8e4623b209d1d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:09 +0000
Subject: [PATCH 16/24] fix: address components with several values must not
 shift the others

---
 vcard.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vcard.go b/vcard.go
index 222c622..b987855 100644
--- a/vcard.go
+++ b/vcard.go
@@ -468,6 +468,17 @@ func (v *VCard) getFirstAddressField(index int) string {
 		return ""
 	}
 
+	// A component can have several values (e.g. the lines of a street address).
+	if components, ok := adr.Value.([]any); ok {
+		if index >= len(components) {
+			return ""
+		}
+
+		component := &VCardProperty{Value: components[index]}
+
+		return strings.Join(component.Values(), " ")
+	}
+
 	values := adr.Values()
 
 	if index >= len(values) {
-- 
2.43.0


From 7784da72bbcc10e7e8b1ef64eef46fe462f0e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:12 +0000
Subject: [PATCH 17/24] fix: sandbox mode must not read the files of @file
 arguments

---
 cli.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/cli.go b/cli.go
index e23b3b0..4d9c459 100644
--- a/cli.go
+++ b/cli.go
@@ -166,6 +166,17 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	// Command line query (any remaining non-option arguments).
 	queryArgs := app.Arg("", "").Strings()
 
+	// Sandbox mode: Prevent file reads by the arguments parser, it replaces an
+	// argument "@file" with the lines of the file.
+	if options.Sandbox || requestsSandbox(args) {
+		for _, arg := range args {
+			if strings.HasPrefix(arg, "@") {
+				printError(stderr, fmt.Sprintf("Error: '%s': @file arguments are disabled (sandbox mode enabled)", arg))
+				return 1
+			}
+		}
+	}
+
 	// Parse command line arguments.
 	// The help messages for -h/--help are printed directly by app.Parse().
 	_, err := app.Parse(args)
@@ -574,6 +585,18 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	return 0
 }
 
+// requestsSandbox returns true if the command line arguments |args| enable
+// sandbox mode.
+func requestsSandbox(args []string) bool {
+	for i, arg := range args {
+		if arg == "--exp=sandbox" || (arg == "sandbox" && i > 0 && args[i-1] == "--exp") {
+			return true
+		}
+	}
+
+	return false
+}
+
 // errorWriter is an io.Writer which remembers the first error of |w|, and
 // writes nothing thereafter.
 type errorWriter struct {
-- 
2.43.0


From 5b77c5cc7efeb56b6db878682b0158376735dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:06 +0000
Subject: [PATCH 18/24] fix: do not panic when the help message cannot be
 written

The arguments parser panics if writing the usage text fails (e.g. --help
with standard output on a full disk).
---
 cli.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cli.go b/cli.go
index 4d9c459..2b03e91 100644
--- a/cli.go
+++ b/cli.go
@@ -121,11 +121,13 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	// For duration timer (in --verbose output).
 	start := time.Now()
 
-	// Setup command line arguments parser.
+	// Setup command line arguments parser. The help message is buffered, as the
+	// parser panics if it can't be written.
+	var usage bytes.Buffer
 	app := kingpin.New("rdap", "RDAP command-line client")
 	app.HelpFlag.Short('h')
 	app.UsageTemplate(usageText)
-	app.UsageWriter(stdout)
+	app.UsageWriter(&usage)
 	app.ErrorWriter(stderr)
 
 	// Instead of letting kingpin call os.Exit(), flag if it requests to exit
@@ -178,13 +180,16 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	}
 
 	// Parse command line arguments.
-	// The help messages for -h/--help are printed directly by app.Parse().
+	// The help message for -h/--help is written to |usage| by app.Parse().
 	_, err := app.Parse(args)
 	if err != nil {
 		printError(stderr, fmt.Sprintf("Error: %s\n\n%s", err, usageText))
 		return 1
 	} else if terminate {
 		// Occurs when kingpin prints the --help message.
+		if _, err := usage.WriteTo(stdout); err != nil {
+			printError(stderr, fmt.Sprintf("Error writing output: %s", err))
+		}
 		return 1
 	}
 
-- 
2.43.0


From ce888adf6b46211ed0a05002bfd153bfcefc8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:07 +0000
Subject: [PATCH 19/24] fix: decoder: leave pointer members unset when their
 value cannot be decoded

---
 decoder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index bd8db9d..9efed08 100644
--- a/decoder.go
+++ b/decoder.go
@@ -735,12 +735,17 @@ func (d *Decoder) decodePtr(keyName string, src any, dst reflect.Value, decodeDa
 			d.addDecodeNote(decodeData, keyName, vcardError.Error())
 		}
 	} else {
+		value := dst
 		if dst.IsNil() {
-			value := reflect.New(dst.Type().Elem())
-			dst.Set(value)
+			value = reflect.New(dst.Type().Elem())
 		}
 
-		success, err = d.decode(keyName, src, reflect.Indirect(dst), decodeData)
+		success, err = d.decode(keyName, src, reflect.Indirect(value), decodeData)
+
+		// Leave |dst| nil if there's no usable value.
+		if success && dst.IsNil() {
+			dst.Set(value)
+		}
 	}
 
 	return success, err
-- 
2.43.0


From af5c546bb20ebd5c64de673e300135f90bc00944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:07 +0000
Subject: [PATCH 20/24] fix: decoder: do not convert numbers outside of the
 uint64 range

---
 decoder.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 9efed08..a9b1559 100644
--- a/decoder.go
+++ b/decoder.go
@@ -327,8 +327,14 @@ func (d *Decoder) decodeUint(keyName string, src any, dst reflect.Value, decodeD
 
 		d.addDecodeNote(decodeData, keyName, "bool to uint conversion")
 	case float64:
-		result = uint64(src)
-		d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+		// Numbers outside of the uint64 range have no uint64 conversion.
+		if src < 0 || src >= math.MaxUint64 {
+			success = false
+			d.addDecodeNote(decodeData, keyName, "error: number too small or large")
+		} else {
+			result = uint64(src)
+			d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+		}
 	case string:
 		var convError error
 
-- 
2.43.0


From abeacc3bfd63d26c2051b844932fb75e1db28ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:07 +0000
Subject: [PATCH 21/24] fix: cli: carriage returns in values do not break whois
 output lines

---
 cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli.go b/cli.go
index 2b03e91..594f950 100644
--- a/cli.go
+++ b/cli.go
@@ -629,7 +629,7 @@ func safePrint(v string) string {
 		switch r {
 		case '\000':
 			return -1
-		case '\n':
+		case '\n', '\r':
 			return ' '
 		default:
 			return r
-- 
2.43.0


From d45bdfc28687113b899b626e849c7d28431dc6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:07 +0000
Subject: [PATCH 22/24] fix: print: OmitNotices and OmitRemarks omit notices
 and remarks

---
 print.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/print.go b/print.go
index a8ba8fc..b57c441 100644
--- a/print.go
+++ b/print.go
@@ -112,7 +112,7 @@ func (p *Printer) printNameserverSearchResults(sr *NameserverSearchResults, inde
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -137,7 +137,7 @@ func (p *Printer) printEntitySearchResults(sr *EntitySearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -162,7 +162,7 @@ func (p *Printer) printDomainSearchResults(sr *DomainSearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -186,7 +186,7 @@ func (p *Printer) printError(e *Error, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -218,7 +218,7 @@ func (p *Printer) printHelp(h *Help, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range h.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -255,13 +255,13 @@ func (p *Printer) printDomain(d *Domain, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range d.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range d.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -339,13 +339,13 @@ func (p *Printer) printAutnum(a *Autnum, indentLevel uint) {
 		p.printValue("Port43", a.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range a.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range a.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -393,13 +393,13 @@ func (p *Printer) printNameserver(n *Nameserver, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range n.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -470,13 +470,13 @@ func (p *Printer) printEntity(e *Entity, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range e.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -548,13 +548,13 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
-- 
2.43.0


From 19246752f8a406984278b6c6bb29f9c009724822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:07 +0000
Subject: [PATCH 23/24] fix: request: a server URL ending in '?' keeps the
 request path

---
 request.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/request.go b/request.go
index 133c986..210211e 100644
--- a/request.go
+++ b/request.go
@@ -266,6 +266,7 @@ func (r *Request) URL() *url.URL {
 		tempURL := new(url.URL)
 		*tempURL = *r.Server
 		tempURL.RawQuery = ""
+		tempURL.ForceQuery = false
 		tempURL.Fragment = ""
 		tempURLString := tempURL.String()
 
-- 
2.43.0


From 167d397d85e25cc89d56fc352021b1879fa8ca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:21 +0000
Subject: [PATCH 24/24] fix: decoder: a fraction is no value of an integer
 member

A number such as 13.75 in an integer member (keyTag, algorithm, startAutnum...)
was truncated, giving the member a value the server never sent. It's now left
unset and noted, as for out of range numbers, and for the string "13.75".
---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index a9b1559..eb20c50 100644
--- a/decoder.go
+++ b/decoder.go
@@ -327,10 +327,14 @@ func (d *Decoder) decodeUint(keyName string, src any, dst reflect.Value, decodeD
 
 		d.addDecodeNote(decodeData, keyName, "bool to uint conversion")
 	case float64:
-		// Numbers outside of the uint64 range have no uint64 conversion.
+		// Numbers outside of the uint64 range have no uint64 conversion, nor do
+		// fractions.
 		if src < 0 || src >= math.MaxUint64 {
 			success = false
 			d.addDecodeNote(decodeData, keyName, "error: number too small or large")
+		} else if src != math.Trunc(src) {
+			success = false
+			d.addDecodeNote(decodeData, keyName, "error: number is not an integer")
 		} else {
 			result = uint64(src)
 			d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
-- 
2.43.0

