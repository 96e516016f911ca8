package ref

import "strings"

// Firewall is the documented verdict: does the firewall let the client through to path?
//
// A rule names a path and clients (an address, or * for everyone). It covers its path and everything below
// it (with a trailing slash: what is below, not the path without it); the rule for / covers everything unless Subpath is set, when it covers / alone. Blacklisting refuses the
// clients named by a rule that covers the request, whitelisting (Blacklisting off) refuses all others.
func Firewall(black, subpath bool, rules map[string][]string, client, path string) bool {
	named := false
	for rp, who := range rules {
		covers := path == rp || rp != "/" && strings.HasPrefix(path, strings.TrimSuffix(rp, "/")+"/") || rp == "/" && !subpath
		for _, c := range who {
			if covers && (c == "*" || c == client) {
				named = true
			}
		}
	}
	return named != black
}
