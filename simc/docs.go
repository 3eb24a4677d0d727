package main

import (
	"fmt"
	"strings"
)

// Documents the operations work on. Each carries the tag of its operation, so
// that data which strays into another result shows.

func vcard(tag string) string {
	return fmt.Sprintf(`["vcard",[["version",{},"text","4.0"],["fn",{},"text","Name %[1]s\nx\u0000%[1]s"],["org",{"type":"work"},"text","Org %[1]s\rX"],
	["adr",{"cc":"NZ"},"text",["Box %[1]s","Ext","Street %[1]s","City","Region","1010","NZ"]],
	["tel",{"type":["work","voice"]},"uri","tel:+64.%[1]s"],["tel",{"type":"fax"},"text","+64 fax %[1]s"],["email",{"pref":"1"},"text","%[1]s@example.com"],
	["categories",{},"text","a %[1]s","b"],["x-nested",{},"text",["x",["y %[1]s",true,4.5,null]]]]]`, tag)
}

func common(tag string) string {
	return fmt.Sprintf(`"lang":"en-%[1]s","port43":"whois.%[1]s\n%[1]s.test","status":["active","s-%[1]s"],
	"events":[{"eventAction":"registration","eventDate":"1990-12-31T23:59:%[1]sZ","eventActor":"actor %[1]s"}],
	"links":[{"value":"http://v.test/%[1]s","rel":"self","href":"http://h.test/%[1]s","hreflang":["en","mi"],"title":"t %[1]s","media":"screen","type":"application/rdap+json"}],
	"remarks":[{"title":"r %[1]s","type":"object truncated","description":["d1 %[1]s\r\nforged %[1]s","d2"],"links":[]}],
	"publicIds":[{"type":"IANA","identifier":"id-%[1]s"}],
	"unknown_%[1]s":{"a":[1,2.5,"x %[1]s",null,true,{"b":"c"}]}`, tag)
}

func entity(tag string, depth int) string {
	sub := ""
	if depth > 0 {
		sub = `,"entities":[` + entity(tag+"1", depth-1) + `]`
	}
	return fmt.Sprintf(`{"objectClassName":"entity","handle":"E-%s","roles":["registrant","registrar"],"vcardArray":%s,%s%s}`, tag, vcard(tag), common(tag), sub)
}

const top = `"rdapConformance":["rdap_level_0"],"notices":[{"title":"notice","description":["n1","n2"],"links":[{"href":"http://n.test"}]}],`

func objDoc(kind, tag string) string {
	switch kind {
	case "domain":
		return fmt.Sprintf(`{%s"objectClassName":"domain","handle":"D-%[2]s","ldhName":"d%[2]s.test","unicodeName":"d%[2]s.test",
		"variants":[{"relation":["registered"],"idnTable":"t","variantNames":[{"ldhName":"v%[2]s.test","unicodeName":"v"}]}],
		"nameservers":[{"objectClassName":"nameserver","ldhName":"ns1.%[2]s.test","ipAddresses":{"v4":["192.0.2.1"],"v6":["2001:db8::%[2]s"]}}],
		"secureDNS":{"zoneSigned":true,"delegationSigned":true,"maxSigLife":604800,"dsData":[{"keyTag":12345,"algorithm":3,"digest":"dd%[2]s","digestType":1}],"keyData":[{"flags":257,"protocol":3,"algorithm":1,"publicKey":"k%[2]s"}]},
		"entities":[%s],"network":%s,%s}`, top, tag, entity(tag, 2), objBody("ip", tag), common(tag))
	case "ip", "autnum", "nameserver", "entity":
		return `{` + top + objBody(kind, tag)[1:]
	case "help":
		return `{"rdapConformance":["rdap_level_0"],"notices":[{"title":"help ` + tag + `","description":["d ` + tag + `"]}]}`
	case "error":
		return `{"rdapConformance":["rdap_level_0"],"errorCode":4` + tag + `,"title":"error ` + tag + `","description":["d ` + tag + `"]}`
	case "domains":
		return `{` + top + `"domainSearchResults":[` + objDoc("domain", tag) + `,` + objDoc("domain", tag+"2") + `]}`
	case "entities":
		return `{` + top + `"entitySearchResults":[` + entity(tag, 1) + `]}`
	case "nameservers":
		return `{` + top + `"nameserverSearchResults":[` + objBody("nameserver", tag) + `]}`
	case "odd": // ill-typed fields
		return fmt.Sprintf(`{"objectClassName":"domain","handle":[1,"%[1]s"],"ldhName":42,"status":"s %[1]s","entities":{"a":1},"secureDNS":{"maxSigLife":"x%[1]s","zoneSigned":"true","dsData":[{"keyTag":-1}]},"nameservers":[1,"%[1]s",{"objectClassName":"nameserver","ldhName":"n%[1]s"}],"port43":null,"lang":true}`, tag)
	case "bad":
		return `{"objectClassName":"domain" "` + tag
	}
	panic(kind)
}

func objBody(kind, tag string) string {
	switch kind {
	case "ip":
		return fmt.Sprintf(`{"objectClassName":"ip network","handle":"N-%[1]s","startAddress":"192.0.2.0","endAddress":"192.0.2.255","ipVersion":"v4","name":"net %[1]s","type":"ALLOCATED","country":"NZ","parentHandle":"P-%[1]s","entities":[%[2]s],%[3]s}`, tag, entity(tag+"7", 0), common(tag))
	case "autnum":
		return fmt.Sprintf(`{"objectClassName":"autnum","handle":"AS-%[1]s","startAutnum":10,"endAutnum":20%[1]s,"name":"as %[1]s","type":"T","country":"AU","entities":[%[2]s],%[3]s}`, tag, entity(tag+"8", 0), common(tag))
	case "nameserver":
		return fmt.Sprintf(`{"objectClassName":"nameserver","handle":"NS-%[1]s","ldhName":"ns%[1]s.test","unicodeName":"ns%[1]s.test","ipAddresses":{"v4":["192.0.2.%[1]s"],"v6":["2001:db8::%[1]s"]},"entities":[%[2]s],%[3]s}`, tag, entity(tag+"9", 0), common(tag))
	case "entity":
		return entity(tag, 2)
	}
	panic(kind)
}

// registry documents of the bootstrap services; v differs from service to service.
func regDoc(name, v string) string {
	var e []string
	add := func(host string, keys ...string) {
		e = append(e, fmt.Sprintf(`[["%s"],["http://%s%s.test/r/","https://%s%s.test/s"]]`, strings.Join(keys, `","`), host, v, host, v))
	}
	switch name {
	case "dns.json":
		add("com", "com", "net")
		add("ex", "example.com")
		add("cz", "cz")
	case "asn.json":
		add("asa", "1-100", "200-300")
		add("asb", "101-150")
	case "ipv4.json":
		add("v4", "192.0.0.0/8", "10.0.0.0/8")
		add("v4b", "192.0.2.0/24")
	case "ipv6.json":
		add("v6", "2001:db8::/32")
		add("v6b", "2001:db8:1::/48")
	default:
		e = append(e, fmt.Sprintf(`[["x@y.z"],["FRNIC","AB%s"],["https://tag%s.test/t/"]]`, strings.ToUpper(v), v))
		return fmt.Sprintf(`{"version":"1.0","publication":"2020-01-01T00:00:00Z","description":"%s %s","services":[%s]}`, name, v, strings.Join(e, ","))
	}
	return fmt.Sprintf(`{"version":"1.0","publication":"2020-01-01T00:00:00Z","description":"%s %s","services":[%s]}`, name, v, strings.Join(e, ","))
}
