package seclang

import (
	"fmt"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"
	"unsafe"

	"github.com/senghoo/modsecurity-go/modsecurity"
)

// v8Dump writes everything that is reachable from v.
func v8Dump(b *strings.Builder, v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Type() == reflect.TypeOf((*regexp.Regexp)(nil)) {
			fmt.Fprintf(b, "/%s/", (*regexp.Regexp)(unsafe.Pointer(v.Pointer())))
			return
		}
		if seen[v.Pointer()] {
			b.WriteString("...")
			return
		}
		seen[v.Pointer()] = true
		b.WriteString("&")
		v8Dump(b, v.Elem(), seen)
		delete(seen, v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "(%s)", v.Elem().Type())
		v8Dump(b, v.Elem(), seen)
	case reflect.Struct:
		fmt.Fprintf(b, "%s{", v.Type())
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
			v8Dump(b, v.Field(i), seen)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			v8Dump(b, v.Index(i), seen)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			v8Dump(&e, k, seen)
			e.WriteString("=")
			v8Dump(&e, v.MapIndex(k), seen)
			l = append(l, e.String())
		}
		sort.Strings(l)
		fmt.Fprintf(b, "map%q", l)
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprint(b, v.IsNil())
	default:
		fmt.Fprint(b, v.Kind())
	}
}

func v8State(e *modsecurity.Engine) string {
	var b strings.Builder
	v8Dump(&b, reflect.ValueOf(e), map[uintptr]bool{})
	return b.String()
}

var v8Vars = strings.Fields("ARGS ARGS_GET ARGS_GET_NAMES ARGS_POST ARGS_POST_NAMES ARGS_NAMES QUERY_STRING REMOTE_ADDR REQUEST_BASENAME REQUEST_BODY REQUEST_COOKIES REQUEST_COOKIES_NAMES REQUEST_FILENAME REQUEST_HEADERS REQUEST_HEADERS_NAMES REQUEST_METHOD REQUEST_PROTOCOL REQUEST_URI RESPONSE_BODY RESPONSE_CONTENT_LENGTH RESPONSE_CONTENT_TYPE RESPONSE_HEADERS RESPONSE_HEADERS_NAMES RESPONSE_PROTOCOL RESPONSE_STATUS")
var v8Coll = map[string]bool{"ARGS": true, "ARGS_GET": true, "ARGS_POST": true, "ARGS_NAMES": true, "REQUEST_COOKIES": true, "REQUEST_HEADERS": true, "RESPONSE_HEADERS": true}

func v8Rules(s *vSearch, id int) string {
	var b strings.Builder
	chain := false
	for n := 1 + s.R.Intn(6); n > 0 || chain; n-- {
		id++
		var ts []string
		for k := 1 + s.R.Intn(3); k > 0; k-- {
			v := s.Pick(v8Vars...)
			x := v
			if s.R.Intn(4) == 0 {
				x = "&" + v
			} else if v8Coll[v] && s.R.Intn(2) == 0 {
				x = s.Pick("", "!") + v + ":" + s.Pick("a", "b", "/a/", "Host", "/./")
			}
			ts = append(ts, x)
		}
		op := s.Pick("@rx a", "@rx .", "@rx ^$", "@eq 0", "@gt 1", "@le 5", "@lt 3", "!@rx b", "!@ge 2", "x")
		acts := []string{fmt.Sprintf("id:%d", id), fmt.Sprintf("phase:%d", 1+s.R.Intn(5))}
		for k := s.R.Intn(4); k > 0; k-- {
			acts = append(acts, s.Pick("t:lowercase", "t:urlDecode", "t:urlDecodeUni", "t:none", "t:removeWhitespace", "t:removeNulls", "t:replaceNulls", "t:compressWhitespace", "log", "skip", "deny", "allow", "allow:phase", "allow:request", "pass", "block", "status:404", "msg:'x'", "tag:'y'", "severity:2", "ver:'1'", "rev:'2'"))
		}
		chain = n > 1 && s.R.Intn(3) == 0
		if chain {
			acts = append(acts, "chain")
		}
		fmt.Fprintf(&b, "SecRule %s \"%s\" \"%s\"\n", strings.Join(ts, "|"), op, strings.Join(acts, ","))
	}
	return b.String()
}

func v8Traffic(s *vSearch, e *modsecurity.Engine) string {
	t, err := e.NewTransaction()
	if err != nil {
		s.Fail("no transaction: %v", err)
	}
	defer t.Result()
	desc := ""
	t.ProcessConnection("1.2.3.4", "1", "5.6.7.8", "2")
	u, _ := url.Parse("http://h/" + s.Pick("", "x/y.php", "a%20b") + "?" + s.Pieces(4, "a=1", "&", "b=2", "a", "%41=x", "+"))
	m := s.Pick("GET", "POST", "PUT")
	if s.R.Intn(6) > 0 {
		t.ProcessRequestURL(u, m, "HTTP/1.1")
		desc += fmt.Sprintf(" %s %s", m, u)
	}
	h := http.Header{}
	for k := s.R.Intn(5); k > 0; k-- {
		h.Add(s.Pick("Host", "A", "Cookie", "Content-Type"), s.Pick("a", "a=b; c=d", "application/x-www-form-urlencoded", "multipart/form-data; boundary=B", "text/plain"))
	}
	t.ProcessRequestHeader(h)
	b := s.Pick("", "a=1&b=2", "a=%zz", "--B\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nv\r\n--B--\r\n", "--B\r\nxx", strings.Repeat("x=yyyyyyy&", 30))
	t.AppendRequestBody([]byte(b))
	desc += fmt.Sprintf(" header %v body %q", h, b)
	t.ProcessRequestBody()
	h = http.Header{}
	for k := s.R.Intn(4); k > 0; k-- {
		h.Add(s.Pick("A", "Content-Type", "Content-Length"), s.Pick("a", "12", "text/html; charset=x"))
	}
	t.ProcessResponseHeaders(200, "HTTP/1.1", h)
	rb := s.Pick("", "body", strings.Repeat("long", 40))
	t.AppendResponseBody([]byte(rb))
	t.ProcessResponseBody()
	t.ProcessLogging()
	return desc + fmt.Sprintf(" response header %v body %q", h, rb)
}

func TestReplayC08(t *testing.T) {
	s := vNewSearch(t)
	dir, err := os.MkdirTemp("", "c08")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(dir)
	for s.More(300) {
		e := modsecurity.NewEngine()
		e.TmpPath = dir
		other := modsecurity.NewEngine()
		other.TmpPath = dir
		otherState := v8State(other)
		text := "SecRequestBodyAccess " + s.Pick("On", "Off") + "\nSecResponseBodyAccess " + s.Pick("On", "Off") + "\n" + v8Rules(s, 100)
		set, err := NewDireSetFromSecLangString(text)
		if err != nil {
			s.Fail("%v\n%s", err, text)
		}
		if err := set.Execute(e); err != nil {
			s.Fail("%v\n%s", err, text)
		}
		if s.R.Intn(2) == 0 {
			e.RequestBodyInMem = 100
		}
		if s.R.Intn(3) == 0 {
			e.ResponseBody = 20
		}
		if got := v8State(other); got != otherState {
			s.Fail("loading rules into one engine changes another\nrules:\n%s\nbefore %s\nafter  %s", text, otherState, got)
		}
		for k := 0; k < 3; k++ {
			e.Enable([]int{modsecurity.StatusOn, modsecurity.StatusOn, modsecurity.StatusDect, modsecurity.StatusOff}[s.R.Intn(4)])
			before := v8State(e)
			d := v8Traffic(s, e)
			if after := v8State(e); after != before {
				s.Fail("a transaction changes the engine\nrules:\n%s\ntransaction:%s\nbefore %s\nafter  %s", text, d, before, after)
			}
		}
		// registration
		var objs []*modsecurity.SecRule
		want := map[int][]*modsecurity.SecRule{}
		for p, l := range e.RuleSet.Phases {
			want[p] = append([]*modsecurity.SecRule(nil), l...)
		}
		for k := s.R.Intn(5); k > 0; k-- {
			r := modsecurity.NewSecRule()
			r.Phase = s.R.Intn(10) - 1
			objs = append(objs, r)
			if modsecurity.PhaseBegin < r.Phase && r.Phase < modsecurity.PhaseEnd {
				want[r.Phase] = append(want[r.Phase], r)
			}
		}
		e.AddSecRule(objs...)
		for p := -2; p < 12; p++ {
			g, w := e.RuleSet.Phases[p], want[p]
			ok := len(g) == len(w)
			for i := 0; ok && i < len(g); i++ {
				ok = g[i] == w[i]
			}
			if !ok {
				var ph []int
				for _, r := range objs {
					ph = append(ph, r.Phase)
				}
				s.Fail("after registering rules of the phases %v phase %d has %d rules, or others, but should have %d\nrules:\n%s", ph, p, len(g), len(w), text)
			}
		}
	}
}
