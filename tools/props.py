#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so the texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A query fails over through its authoritative servers, in order",
  "A query that was bootstrapped to several authoritative RDAP servers tries them in the order the bootstrap registry lists them, each at most once (following the redirects it sends), and returns the object of the first one that gives a usable answer (2xx status, complete non-empty body, decodable RDAP object), whatever mix of connection failures, TLS failures, broken or truncated transfers, error statuses, empty bodies and undecodable bodies the earlier servers produced. A 404 from any of them is authoritative: it ends the query at once, with an 'object does not exist' error and no further server contacted. The query fails with 'no working servers' only after every listed server was tried and failed.",
  ["fault_sequences", "histories", "inputs"],
  "every number of servers, every assignment of a fault or answer to each of them, every query type that can be bootstrapped",
  "The tests sample one or two mocked servers with one failure each; the property ranges over every sequence of per-server faults.",
  ["client.go", "bootstrap/client.go"],
  [("server loop of Do", "client.go Client.Do"), ("get", "client.go Client.get")],
  ["rdap.Client.Do", "rdap.Client.QueryDomain/QueryAutnum/QueryIP", "the RDAP servers' request logs"])

p("C02", "The outcome of a query reports truthfully what happened",
  "A query returns an object only if a contacted server really sent it, and then exactly that object; otherwise it returns an error whose kind says what really happened: bad input, bootstrapping unsupported for this query type (with no network use), no server listed for the query, object does not exist (a server said 404), no working server, object of the wrong type, or an RDAP error object sent by the server (with its error code and text). The response carries one record per server contacted, in the order contacted, holding that attempt's URL, HTTP response, body bytes, duration and error. No query text, reply or fault makes a query panic.",
  ["fault_sequences", "inputs", "histories"],
  "every query type, every reply or fault of every server and of the bootstrap service",
  "Tests assert a few fixed replies; they do not relate the outcome to what the servers actually did under arbitrary fault sequences.",
  ["client.go", "client_error.go", "response.go"],
  [("error classification", "client.go Client.Do"), ("quick query type checks", "client.go QueryDomain/QueryAutnum/QueryIP"), ("clientErrorFromRDAPError", "client_error.go")],
  ["error value and Response of rdap.Client.Do / Query*", "servers' logs"])

p("C03", "Deadlines and cancellation bound every call; in-time answers are kept",
  "A call returns no later than its deadline (the request's context, the request's Timeout, the 30 s of QueryDomain/QueryAutnum/QueryIP, or the CLI's --timeout, whichever is earliest), counting bootstrap download, connection, TLS, headers, body and failover together, however slow or stalled any server is; cancelling the context makes it return at once. When the time is up it returns an error and contacts no further server. A complete answer that arrives before the deadline is returned, however slow it was and however many servers stalled, failed or trickled before it.",
  ["schedules", "fault_sequences", "configurations"],
  "every delay and stall at every stage of every connection, every deadline and cancellation instant",
  "Tests use instant mock responders: no test lets time pass, stalls a body, or lets a deadline expire.",
  ["client.go", "request.go", "cli.go", "bootstrap/client.go", "bootstrap/question.go"],
  [("context handed to each HTTP request", "client.go Client.get"), ("Request.Timeout", "client.go Client.Do"), ("doQuickRequest 30 s", "client.go"), ("question context", "client.go Client.Do, bootstrap/client.go DownloadWithContext"), ("--timeout", "cli.go RunCLI")],
  ["simulated time at which each call returns", "servers' logs"])

p("C04", "No lookup is answered from bootstrap data older than the cache timeout",
  "A bootstrap lookup (direct, through a query, or through the CLI) never answers from a registry document that was obtained longer ago than the configured cache timeout: once the copy at hand has expired, or has been removed from the cache, the lookup downloads a new one or returns an error. This holds for long-lived clients as well as fresh processes, for memory and disk caches, and after any sequence of failed downloads, failed reloads, crashes, restarts and refreshes by other processes sharing the cache directory.",
  ["histories", "schedules", "crash_points", "fault_sequences"],
  "every sequence of lookups, downloads, sleeps, failures and crashes of several processes sharing a cache, for every timeout value, each client of a service having its own cache object (clocks that run backwards are excluded)",
  "Staleness needs hours of time, expired caches and failed refreshes in combination; the tests run in milliseconds with one client.",
  ["bootstrap/client.go", "bootstrap/cache/disk_cache.go", "bootstrap/cache/memory_cache.go", "cli.go"],
  [("state decision in Lookup", "bootstrap/client.go Client.Lookup"), ("State", "bootstrap/cache/*.go")],
  ["bootstrap.Client.Lookup", "rdap.Client.Do", "rdap.RunCLI"],
  state=[("registries", "in-memory registries", "bootstrap/client.go"), ("lastLoadedModTime", "mtime of the loaded copy", "bootstrap/cache/disk_cache.go")])

p("C05", "Fresh bootstrap data is reused: no needless downloads",
  "While a complete copy of a registry document obtained within the cache timeout is at hand (in the client's memory cache, or in the shared cache directory whoever put it there), lookups make no bootstrap request at all; otherwise a lookup makes exactly one request, for the one registry it needs. The registry accessors (DNS, ASN, IPv4, IPv6, ServiceProvider) never use the network, and a query that names its server, or whose type cannot be bootstrapped, never contacts the bootstrap service.",
  ["histories", "schedules", "configurations"],
  "every sequence of lookups, downloads, accessor calls and sleeps of several clients and processes, with a healthy cache, each client of a service having its own cache object",
  "Tests count a couple of requests right after one another; nothing covers restarts, several processes, expiry boundaries or mixed registries.",
  ["bootstrap/client.go", "bootstrap/cache/disk_cache.go", "bootstrap/cache/memory_cache.go", "client.go"],
  [("Lookup / reloadFromCache", "bootstrap/client.go"), ("freshenFromCache", "bootstrap/client.go"), ("State", "bootstrap/cache/*.go")],
  ["request log of the bootstrap services"])

p("C06", "A failed bootstrap refresh is reported, harmless and recoverable",
  "When a bootstrap download fails in any way (no connection, error status, redirect loop, broken or truncated transfer, a body that is not a bootstrap registry document, a cache that cannot be written), Download and Lookup report an error, the cached copy keeps its previous content and the client's registry keeps its previous value. As soon as the fault is gone the next lookup succeeds: no failure wedges a client, a cache directory or a later process. A bootstrap service that redirects is followed.",
  ["fault_sequences", "histories"],
  "every kind of failure of every download in every history of lookups, downloads and accessor calls",
  "The tests never make a download fail after a good one, nor look at the cache afterwards.",
  ["bootstrap/client.go", "bootstrap/file.go", "bootstrap/cache/disk_cache.go"],
  [("parse before save", "bootstrap/client.go download"), ("save before publish", "bootstrap/client.go DownloadWithContext"), ("document validation", "bootstrap/file.go NewFile")],
  ["errors of Download/Lookup", "cache directory bytes", "registry accessors"])

p("C07", "The disk cache survives crashes, torn writes and full disks",
  "A process killed at any point of a cache save, a write that fails or is cut short (disk full, I/O error), or a power loss never makes any process answer from a damaged or partial document: a later lookup uses a complete document or downloads one, and succeeds. A save is all-or-nothing: unless power is lost, loading a cached document returns the exact bytes of some completely saved one, and a save that failed leaves the previous document (or the complete new one) in place. A save that reported success survives the crash of the process.",
  ["crash_points", "fault_sequences", "histories"],
  "every file system call as crash or error point, every prefix of every write, any number of processes and restarts",
  "Tests write small files to a healthy disk and never crash.",
  ["bootstrap/cache/disk_cache.go", "bootstrap/client.go"],
  [("atomic save", "bootstrap/cache/disk_cache.go Save"), ("reload failure forces download", "bootstrap/client.go Lookup")],
  ["cache directory bytes", "DiskCache.Load", "bootstrap.Client.Lookup after restart"])

p("C08", "A refresh saved by one process is used by the others",
  "Once a download was saved in a shared cache directory, every lookup and every registry accessor call that starts later, in the same or any other process using that directory and bootstrap service, works from that document or a newer one and needs no download for it (registry accessors: as long as the saved document is unexpired and readable).",
  ["schedules", "histories"],
  "every interleaving of saves, loads, lookups and accessor calls of several processes sharing a cache directory, each client of a service having its own cache object",
  "A single test checks one sequential save and reload with two caches.",
  ["bootstrap/client.go", "bootstrap/cache/disk_cache.go"],
  [("ShouldReload", "bootstrap/cache/disk_cache.go State"), ("reloadFromCache / freshenFromCache", "bootstrap/client.go")],
  ["answers of Lookup, File() of the accessors' registries"])

p("C09", "Bootstrap services and registries never get mixed up",
  "A client configured for one bootstrap service only ever uses documents that came from that service, and each kind of question (domain, IPv4, IPv6, AS number, object tag) is answered from that service's document of that kind, even when clients of several services share one cache directory or one cache object, in any order and across restarts.",
  ["configurations", "histories", "schedules"],
  "every set of bootstrap base URLs (with distinct 6-digit hash prefixes), registries and histories sharing a cache",
  "Tests use a single service per test.",
  ["bootstrap/client.go"],
  [("filenameFor", "bootstrap/client.go"), ("registries map", "bootstrap/client.go"), ("bootstrapTypeFor", "client.go")],
  ["answers attributed to the document they came from", "cache directory listing"])

p("C10", "Queries go exactly to the servers of the best matching registry entry",
  "The servers a bootstrapped query contacts are exactly those which the registry document in force lists for the entry that best matches the query (longest domain suffix; most specific covering network; the AS range containing the number; the tag after the last dash), in the listed order, at the URL formed from the listed base URL and the query, with a GET request that asks for RDAP JSON; when no entry matches, no server is contacted. A lookup's answer names that entry. This stays true when the document is replaced, reloaded or refreshed while the client lives, and is the same for direct lookups, queries and the CLI.",
  ["histories", "inputs", "schedules"],
  "every registry document of the modelled families (no duplicate or overlapping equal-size entries), every query of the five kinds, every history of document changes",
  "Tests use one fixed document per registry and never change it during a client's life.",
  ["bootstrap/dns_registry.go", "bootstrap/net_registry.go", "bootstrap/asn_registry.go", "bootstrap/service_provider_registry.go", "bootstrap/client.go", "client.go", "request.go"],
  [("registry Lookup methods", "bootstrap/*_registry.go"), ("bootstrapTypeFor and server list", "client.go Do"), ("URL", "request.go")],
  ["bootstrap.Answer", "request URLs seen by the servers"])

p("C11", "Running queries leaves the caller's inputs and the registries unchanged",
  "Executing a query or a lookup, successful or not, does not modify the request (its server URL and parameters included), the question, the bootstrap client's base URL and verbose callback, or the registry documents and URLs the client holds; parameters carried in a server's base URL reach the server every time. Consequently the same request can be executed again, on the same or another client, and contacts the same URLs with the same result as long as servers and registry answer the same.",
  ["histories", "inputs", "fault_sequences"],
  "every request, every base URL (with or without query and fragment), every number of repetitions with arbitrary failures in between",
  "Tests execute each request once and do not look at their inputs afterwards.",
  ["request.go", "client.go", "bootstrap/client.go"],
  [("URL works on a copy", "request.go URL"), ("WithServer/WithContext copy", "request.go"), ("shared URL pointers in registries", "bootstrap/file.go")],
  ["deep comparison of inputs", "registry accessors", "server logs"])

p("C12", "Every HTTP response body is closed on every path",
  "Each HTTP response the library obtains, from bootstrap services and RDAP servers alike, has its body closed by the time the call that obtained it returns, whatever the status, content, decoding result, read error, failover, timeout or cancellation; so no sequence of calls accumulates open connections, file handles or goroutines.",
  ["fault_sequences", "histories"],
  "every reply, fault and cancellation instant of every request in every history",
  "The mocks used by the tests do not notice unclosed bodies.",
  ["client.go", "bootstrap/client.go"],
  [("deferred Close", "client.go get, bootstrap/client.go download")],
  ["response bodies at the transport", "open connections after each call"])

p("C13", "The CLI's exit status and output streams tell success from failure",
  "Asked for a query, the rdap command exits 0 if and only if the query was answered by an RDAP server and the complete result was written to standard output; otherwise it exits non-zero, writes an error message to standard error and nothing of a result to standard output (unless it is writing to standard output that failed). Diagnostics and verbose messages go to standard error only, and verbose mode, which writes progress messages there, does not change standard output or the exit status. --help and --version print their text and use no network. No combination of options, replies and faults makes it panic or hang.",
  ["inputs", "fault_sequences", "configurations"],
  "every supported combination of query, output mode and options, under every network, disk and output fault",
  "The CLI tests check a handful of fixed, fault-free invocations.",
  ["cli.go", "cmd/rdap/main.go"],
  [("RunCLI", "cli.go")],
  ["exit status, stdout and stderr of RunCLI"])

p("C14", "The CLI prints the answering server's response, complete and unaltered",
  "--raw prints byte for byte the body sent by the server whose answer was used, --json prints the same JSON document re-indented, and text and whois output show all of that object's data (text: every known member at every level, labelled and indented by nesting, the elements of each list in the order sent; whois: the documented fields, the values of each in the order sent, also through Response.ToWhoisStyleResponse), also when other servers were tried first and failed, however the transfer was chunked or compressed. The same holds for Printer with its indentation and omission options (notices, remarks, brief links). If standard output cannot take all of it (closed pipe, full disk), the command exits non-zero.",
  ["fault_sequences", "inputs"],
  "every failover sequence, chunking and encoding of replies, output mode, and point at which writing to standard output fails",
  "CLI tests have one server, instant replies and a buffer that never fails.",
  ["cli.go", "print.go", "response.go"],
  [("output section of RunCLI", "cli.go"), ("ToWhoisStyleResponse", "response.go")],
  ["stdout and exit status of RunCLI"])

p("C15", "TLS servers are authenticated unless --insecure is given",
  "Without --insecure, no response of an HTTPS server whose certificate is expired, not yet valid, for another name, self-signed or from an unknown authority is ever used, neither as bootstrap data nor as an RDAP answer, and nothing of the query reaches that server; it is treated as a failed server. With --insecure such servers are used. A client certificate given with --cert/--key or --p12 is presented to servers which ask for one, and if it cannot be loaded the command fails before any network traffic.",
  ["fault_sequences", "configurations"],
  "every assignment of certificate defects to the bootstrap and RDAP servers, with and without --insecure and client certificates",
  "No test performs a TLS handshake.",
  ["cli.go", "client.go"],
  [("tls.Config of the transport", "cli.go RunCLI")],
  ["which servers received a request; exit status; certificates seen by servers"])

p("C16", "Sandbox mode never touches caller-chosen files",
  "With CLIOptions.Sandbox (or --exp sandbox) no combination of arguments makes the command read, create, write, rename or delete any file named by an argument: --cache-dir, --cert and --key are ignored, '@file' arguments are not expanded, --p12 can only name one of the packaged sample certificates, and the only files written are registry documents (and temporary files for them) in the default cache directory.",
  ["inputs", "fault_sequences", "histories"],
  "every argument list built from the CLI's options with hostile path values, under network and disk faults",
  "No test runs the sandbox mode with hostile paths or records the file accesses.",
  ["cli.go", "sandbox/file.go"],
  [("Sandbox checks", "cli.go RunCLI"), ("IsFileInSandbox", "sandbox/file.go")],
  ["every file system call of the command"])

p("C17", "Independent clients and decoders running concurrently do not interfere",
  "Separate clients, decoders, printers and CLI invocations may run at the same time in different goroutines: each call has the result it would have alone, and no data race occurs between them, including on the library's hidden shared state (decoding plans, sandbox files, defaults).",
  ["schedules", "inputs"],
  "every interleaving of operations of independent clients, decoders, printers and CLI runs",
  "The tests are sequential and run without the race detector.",
  ["decoder.go", "sandbox/file.go", "cli.go", "client.go"],
  [("structPlanCache", "decoder.go"), ("sandboxPath", "sandbox/file.go")],
  ["results compared with sequential execution", "race detector"])

p("C18", "Registry caches are faithful registers with a truthful state",
  "Loading a file from a memory or disk cache returns exactly the bytes last saved under that name (not those of another name, and unaffected by what the caller later does to its buffers), expired or not, and an error if there is none. The reported state is truthful: Absent if there is no such file, Expired if it was saved longer ago than the timeout, ShouldReload if it is unexpired and a version this cache object has not loaded or saved is there, Good otherwise; changing the timeout takes effect at once. A cache that cannot be written or read reports an error.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of saves, loads, state queries, timeout changes, sleeps and outside changes by several cache objects on one directory, with disk faults",
  "The tests walk through one short sequence per cache.",
  ["bootstrap/cache/disk_cache.go", "bootstrap/cache/memory_cache.go", "bootstrap/cache/registry_cache.go"],
  [("Save/Load/State", "bootstrap/cache/*.go")],
  ["cache.RegistryCache methods"])

p("C19", "Interrupted transfers are never taken for complete answers",
  "A response body that was cut short, reset or corrupted in transit at any byte, whether sent with a length, chunked, compressed or delimited by connection close, is never accepted as a bootstrap registry or RDAP answer, nor saved in the cache, nor printed as a result; the attempt counts as failed. Conversely the result does not depend on how a complete body was split into packets or encoded.",
  ["fault_sequences", "inputs"],
  "every cut point of every body, every framing and every split into packets",
  "The mocks of the tests hand over whole bodies only.",
  ["client.go", "bootstrap/client.go"],
  [("ReadAll error checks", "client.go get, bootstrap/client.go download"), ("JSON parsing", "bootstrap/file.go, decoder.go")],
  ["results of Lookup/Do/RunCLI, cache bytes"])

p("C20", "A malformed or foreign answer costs no more than its malformed parts",
  "Whatever JSON object a server sends with its answer, the query returns every part of it that RDAP defines and that is well-formed, at every nesting level, unaltered: a member of the wrong JSON type or out of range, an unknown member, or a malformed array element affects nothing but itself: it is converted if that loses nothing (numbers, booleans, numeric strings, null as empty), otherwise left unset or out, and never replaced by a made-up value. The returned object's DecodeData reports every member that was sent: its value, whether it is known, and a note if it could not be decoded. Only a document which is not recognisable as an RDAP object (or not JSON at all) makes the attempt fail, and then the next server is asked. No answer makes the client panic or hang.",
  ["inputs", "fault_sequences"],
  "every JSON document built from RDAP objects by adding, removing, duplicating and retyping members and elements at every level, sent by any server of any failover sequence",
  "Tests decode a few well-formed sample documents and a handful of ill-typed fields.",
  ["decoder.go", "decode_data.go", "client.go"], [("decoder", "decoder.go Decoder.Decode"), ("decode data", "decode_data.go"), ("failover on undecodable answers", "client.go Do")],
  ["Response.Object of rdap.Client.Do / Query* and its DecodeData", "servers' logs"])

p("C21", "Every server receives exactly the request that was made, whatever its text",
  "Each server contacted for a query receives the request type and query text which the caller asked for, byte for byte after decoding the URL: below the server's own base path (whatever characters that contains) and together with the base URL's own parameters and credentials, the request's extra parameters, and nothing else. Text with spaces, slashes, percent signs, question marks, '#', control characters or any Unicode stays one path segment or one parameter value and cannot reach another path, server or parameter. A raw URL is requested as given. (IP queries are texts of IP addresses and networks; '.' and '..' alone are no query texts.) The response's record of each attempt carries that URL.",
  ["inputs", "histories", "fault_sequences"],
  "every request type, query text, parameter set and base URL, named or bootstrapped, through Do, Query* and the CLI, at every server of every failover sequence",
  "Tests compare a table of example URLs and never look at what a server receives.",
  ["request.go", "client.go", "cli.go"], [("URL/escapePath", "request.go"), ("server list", "client.go Do"), ("query construction", "cli.go RunCLI")],
  ["the servers' request logs", "Response.HTTP"])

p("C22", "A query given without a type is asked as what it is",
  "A query text given without a type (NewAutoRequest, the CLI without -t) is sent as documented: an http(s) URL with a path is fetched as it is, one without a path (or with just '/') is a domain query for its host, an IP address or network in any spelling is an IP query, a number up to 4294967295 with or without 'AS' in any case is an AS number query, any other text with a dot is a domain query and everything else an entity query. It is looked up in the registry of that kind, in normal form, and spelling variants of one number, address or network give the same request; the text is otherwise unaltered.",
  ["inputs", "histories"],
  "every query text, bootstrapped or with a named server, through Do and the CLI (URLs with a port or without a host excluded)",
  "Tests check a short table of texts.",
  ["request.go", "cli.go"], [("NewAutoRequest", "request.go"), ("no type given", "cli.go RunCLI")],
  ["requests at the bootstrap service and the RDAP servers", "rdap.NewAutoRequest"])

p("C23", "Contact cards are returned as they were sent, or not at all",
  "Each jCard of an answer is returned with all its properties in order, each with its name, string parameters, type and values (numbers, booleans, nulls and nested lists included) as sent; a card that is malformed as jCard defines is left out (with a note) and costs nothing else of the answer. The accessors (Name, Tel, Fax, Email, address parts, Org, ... and Get/GetFirst) return the documented property of that card and nothing of another property, and an empty string if it is missing. NewVCardWithOptions with IgnoreInvalidProperties keeps exactly the well-formed properties.",
  ["inputs", "fault_sequences"],
  "every entity of every answer with jCards built by adding, removing and retyping properties, parameters, types and values",
  "Tests decode a few sample cards.",
  ["vcard.go", "decoder.go"], [("NewVCard", "vcard.go"), ("accessors", "vcard.go")],
  ["Entity.VCard of returned objects", "rdap.NewVCard / NewVCardWithOptions on the bytes sent"])

p("C24", "Texts sent by servers cannot forge or break output lines",
  "However a server chooses the strings in its answer, each value shown by the text and whois outputs stays within its own line: newlines, carriage returns and NUL characters in names, values, descriptions, links or contact cards never start a new output line or field; text output drops them and whois output shows them as spaces. Every line of the output is one the reference rendering of the object has, and stderr apart, nothing else is printed.",
  ["inputs", "fault_sequences"],
  "every string at every place of every answer, in text and whois output of the CLI and through Printer with any of its options",
  "Tests print a few benign samples.",
  ["print.go", "cli.go", "response.go"], [("cleanString", "print.go"), ("safePrint", "cli.go")],
  ["stdout of RunCLI", "rdap.Printer"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
