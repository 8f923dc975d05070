package harness

import (
	"regexp"
	"strings"
)

var frameRe = regexp.MustCompile(`(?m)^  (\S.*)\(\)$`)

// classifyRace names a race report whose two accesses are both in the code under
// test; empty otherwise.
func classifyRace(rep string) string {
	if !strings.Contains(rep, "DATA RACE") {
		return ""
	}
	parts := regexp.MustCompile(`(?m)^(Previous |Goroutine )`).Split(rep, -1)
	if len(parts) < 2 {
		return ""
	}
	var sites []string
	isMap := false
	for _, p := range parts[:2] {
		site := ""
		for _, m := range frameRe.FindAllStringSubmatch(p, -1) {
			fn := m[1]
			if strings.HasPrefix(fn, "runtime.map") || strings.HasPrefix(fn, "internal/runtime/maps.") {
				isMap = true
				continue
			}
			if strings.Contains(fn, "herumi/") { // the memo table of the instrumented library
				break
			}
			if strings.Contains(fn, "CTngV2/") {
				if !strings.Contains(fn, "zzverif") {
					site = fn[strings.LastIndex(fn, "/")+1:]
				}
				break
			}
		}
		sites = append(sites, site)
	}
	if !isMap || sites[0] == "" || sites[1] == "" {
		return ""
	}
	if sites[0] > sites[1] {
		sites[0], sites[1] = sites[1], sites[0]
	}
	return sites[0] + " / " + sites[1]
}
