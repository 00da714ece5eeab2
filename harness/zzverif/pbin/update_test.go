package pbin

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"io"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"alda.io/client/generated"
	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Asset is something that belongs to a release.
type Asset struct {
	Name, Type string
	Size       int    // in bytes
	How        string // how it is delivered
	Cut        int    // in percent, where it breaks off
	Odd        string // what is odd about its description
	Plain      bool   // it is fetched by HTTP
}

// Release is what the world says about a version.
type Release struct {
	Version, Date, Changelog string
	Missing                  string // what isn't there: version, date, changelog, assets, platform
	A                        []Asset
}

// Update is a use of `alda update`.
type Update struct {
	Rel     []Release
	Version string // asked for
	Api     string // what is odd about the answer
	Explain string
	Yes     bool
	Answer  string
	Pick    int    // the release that is chosen among several
	Player  string // none, there, read-only
	Others  []string
	Link    bool
	Place   string // "", "foreign" (not ours), "sticky" (the program isn't ours)
	Limit   int
	Kill    string // "", download, install
	Signal  int
	At      int // percent of the download, or ms after it
}

func genAsset(t *rapid.T, name string) Asset {
	a := Asset{Name: name, Type: "executable", Size: rapid.IntRange(1, 200000).Draw(t, "size"), How: "length", Cut: rapid.IntRange(0, 99).Draw(t, "cut"), Plain: rapid.IntRange(0, 3).Draw(t, "plain") == 0}
	switch rapid.IntRange(0, 15).Draw(t, "how") {
	case 0, 1:
		a.How = "chunked"
	case 2:
		a.How = "close"
	case 3:
		a.How = "moved"
	case 4:
		a.How = "short"
	case 5:
		a.How = "short-chunked"
	case 6:
		a.How = rapid.SampledFrom([]string{"404", "500", "403", "204", "206", "nothing", "refused"}).Draw(t, "bad")
	}
	if rapid.IntRange(0, 19).Draw(t, "odd") == 0 {
		a.Odd = rapid.SampledFrom([]string{"string", "null", "no name", "no type", "no url", "number", "library", "up", "below", "url", "long"}).Draw(t, "what is odd")
	}
	return a
}

func genRelease(t *rapid.T) Release {
	r := Release{Version: fmt.Sprintf("%d.%d.%d", rapid.IntRange(0, 9).Draw(t, "x"), rapid.IntRange(0, 20).Draw(t, "y"), rapid.IntRange(0, 9).Draw(t, "z")),
		Date: "2031-02-03", Changelog: rapid.SampledFrom([]string{"* better", "", "line\nline two is longer\n\n* 3", "ünï → ♯", "tab\there %d %s"}).Draw(t, "changelog")}
	r.A = []Asset{genAsset(t, "alda"), genAsset(t, "alda-player")}
	if rapid.Bool().Draw(t, "other order") {
		r.A[0], r.A[1] = r.A[1], r.A[0]
	}
	switch rapid.IntRange(0, 9).Draw(t, "assets") {
	case 0:
		r.A = r.A[:1]
	case 1:
		r.A = append(r.A, genAsset(t, "alda-extra"))
	}
	if rapid.IntRange(0, 11).Draw(t, "missing") == 0 {
		r.Missing = rapid.SampledFrom([]string{"version", "date", "changelog", "assets", "platform"}).Draw(t, "what is missing")
	}
	return r
}

func genUpdate(t *rapid.T) *Update {
	u := &Update{Yes: rapid.Bool().Draw(t, "yes"), Link: rapid.IntRange(0, 3).Draw(t, "link") == 0,
		Answer: rapid.SampledFrom([]string{"y\n", "y\n", "\n", "Yes\n", "maybe\ny\n", " Y \r\n", "n\n", "no\n", "NO\n", "yeah\nn\n", "", "maybe", "ye\n"}).Draw(t, "answer"),
		Player: rapid.SampledFrom([]string{"there", "there", "none", "read-only"}).Draw(t, "player")}
	for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 1, 1, 1, 0, 2, 3}).Draw(t, "releases"); i < n; i++ {
		u.Rel = append(u.Rel, genRelease(t))
	}
	if len(u.Rel) > 1 {
		// With several, the answer is a choice; it can be piped as well.
		u.Pick = rapid.IntRange(-1, len(u.Rel)-1).Draw(t, "pick")
		for i := range u.Rel {
			u.Rel[i].Version = fmt.Sprintf("%d.", i+1) + u.Rel[i].Version[strings.IndexByte(u.Rel[i].Version, '.')+1:]
			if u.Rel[i].Missing == "version" {
				u.Rel[i].Missing = ""
			}
		}
		switch {
		case u.Pick < 0:
			u.Answer = rapid.SampledFrom([]string{"", "x", "1"}).Draw(t, "no choice")
		case rapid.Bool().Draw(t, "typed"):
			u.Yes, u.Answer = true, "Alda "+u.Rel[u.Pick].Version+" \r"
		default:
			u.Yes, u.Answer = true, strings.Repeat("\x1b[B", u.Pick)+"\r"
		}
	} else if rapid.IntRange(0, 2).Draw(t, "version") == 0 {
		u.Version = rapid.SampledFrom([]string{"2.0.0", "1.4.9", "latest", "a b", "x/../y", "1?x=2", "%41", "ü", "1#2"}).Draw(t, "which")
	}
	if rapid.IntRange(0, 7).Draw(t, "api") == 0 {
		u.Api = rapid.SampledFrom([]string{"404", "500", "302", "text", "empty", "short", "array", "no releases", "number", "null", "refused", "null release"}).Draw(t, "what api")
	}
	if rapid.IntRange(0, 4).Draw(t, "explain") == 0 {
		u.Explain = rapid.SampledFrom([]string{"What this means", "two\nlines", "é"}).Draw(t, "explanation")
	}
	for n := rapid.IntRange(0, 3).Draw(t, "others"); n > 0; n-- {
		u.Others = append(u.Others, rapid.SampledFrom([]string{"alda.bak", "aldax", "score.alda", "alda-player.old", "alda.exe", "sub/alda", "alda-extra", "evil"}).Draw(t, "other"))
	}
	switch rapid.IntRange(0, 11).Draw(t, "trouble") {
	case 0:
		u.Place = "foreign"
	case 1, 2:
		u.Place = "sticky"
	case 3:
		u.Limit = rapid.IntRange(1, 200).Draw(t, "limit")
	case 4, 5:
		u.Kill, u.At = "download", rapid.IntRange(0, 99).Draw(t, "at")
		u.Signal = rapid.SampledFrom([]int{2, 9, 15}).Draw(t, "signal")
	case 6, 7:
		u.Kill, u.At = "install", rapid.IntRange(0, 24).Draw(t, "at")
		u.Signal = rapid.SampledFrom([]int{2, 9, 15}).Draw(t, "signal")
		if len(u.Rel) > 0 {
			p := u.Pick
			if p < 0 {
				p = 0
			}
			for i := range u.Rel[p].A {
				u.Rel[p].A[i].Size += rapid.IntRange(0, 8000000).Draw(t, "more")
			}
		}
	}
	return u
}

// bytesOf are the contents of an asset.
func bytesOf(release, n, size int, platform string) []byte {
	b := make([]byte, size)
	x := uint32(release*7919 + n*104729 + size*31 + len(platform)*17 + 1)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x)
	}
	return b
}

const platform = "linux-amd64"

// shop answers for the internet.
type shop struct {
	u     *Update
	api   string // what the program asked first
	bad   []string
	took  map[string]int
	names []string // of what was fetched
	fine  int      // assets that were delivered in full
	stop  func()   // ends the program
	body  func(i, j int) []byte
	mu    sync.Mutex
}

func (s *shop) describe(i int, r *Release) interface{} {
	if s.u.Api == "null release" {
		return nil
	}
	m := map[string]interface{}{"version": r.Version, "date": r.Date, "changelog": r.Changelog}
	plats := map[string]interface{}{}
	for _, pl := range []string{platform, "linux-arm64", "linux-386", "darwin-amd64", "windows-amd64"} {
		l := []interface{}{}
		for j, a := range r.A {
			scheme := "https"
			if a.Plain {
				scheme = "http"
			}
			host := "cdn.alda.io"
			d := map[string]interface{}{"name": a.Name, "type": a.Type, "url": fmt.Sprintf("%s://%s/get/%d/%d/%s/%s", scheme, host, i, j, pl, a.Name)}
			var item interface{} = d
			switch a.Odd {
			case "string":
				item = a.Name
			case "null":
				item = nil
			case "no name":
				delete(d, "name")
			case "no type":
				delete(d, "type")
			case "no url":
				delete(d, "url")
			case "number":
				d["name"] = 5
			case "library":
				d["type"] = "library"
			case "up":
				d["name"] = "../evil"
			case "below":
				d["name"] = "sub/alda"
			case "url":
				d["url"] = "nowhere:"
			case "long":
				d["name"] = "alda-" + strings.Repeat("x", 243)
			}
			l = append(l, item)
		}
		plats[pl] = l
	}
	m["assets"] = plats
	switch r.Missing {
	case "platform":
		delete(plats, platform)
	case "":
	default:
		delete(m, r.Missing)
	}
	return m
}

func (s *shop) reply(w io.Writer, host string, req *http.Request) bool {
	answer := func(code int, body string) bool {
		fmt.Fprintf(w, "HTTP/1.1 %d Answer\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", code, len(body), body)
		return code == 200
	}
	if strings.HasPrefix(host, "api.alda.io") {
		s.mu.Lock()
		s.api += req.Method + " " + req.URL.RequestURI() + "\n"
		s.mu.Unlock()
		m := map[string]interface{}{}
		var whole interface{} = m
		if s.u.Version != "" {
			if len(s.u.Rel) == 0 {
				return answer(404, "{}")
			}
			whole = s.describe(0, &s.u.Rel[0])
		} else {
			l := []interface{}{}
			for i := range s.u.Rel {
				l = append(l, s.describe(i, &s.u.Rel[i]))
			}
			m["releases"] = l
			if s.u.Explain != "" {
				m["explanation"] = s.u.Explain
			}
		}
		b, err := json.Marshal(whole)
		if err != nil {
			vp.Infra(err)
		}
		switch s.u.Api {
		case "404", "500":
			return answer(map[string]int{"404": 404, "500": 500}[s.u.Api], string(b))
		case "302":
			io.WriteString(w, "HTTP/1.1 302 Found\r\nLocation: https://api.alda.io/elsewhere\r\nContent-Length: 0\r\n\r\n")
			return true
		case "text":
			return answer(200, "<html>not this</html>")
		case "empty":
			return answer(200, "")
		case "short":
			fmt.Fprintf(w, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(b), b[:len(b)/2])
			return false
		case "array":
			return answer(200, "[]")
		case "no releases":
			return answer(200, "{}")
		case "number":
			return answer(200, `{"releases": 5, "assets": 3, "version": 1}`)
		case "null":
			return answer(200, "null")
		case "refused":
			return false
		}
		return answer(200, string(b))
	}
	var i, j int
	var pl string
	p := strings.Split(strings.TrimPrefix(req.URL.Path, "/"), "/")
	if len(p) >= 5 {
		fmt.Sscan(p[1], &i)
		fmt.Sscan(p[2], &j)
		pl = p[3]
	}
	s.mu.Lock()
	if len(p) < 5 || i >= len(s.u.Rel) || j >= len(s.u.Rel[i].A) || pl != platform {
		s.bad = append(s.bad, req.Method+" "+host+req.URL.Path)
		s.mu.Unlock()
		return answer(404, "{}")
	}
	s.took[fmt.Sprint(i)]++
	s.names = append(s.names, s.u.Rel[i].A[j].Name)
	s.mu.Unlock()
	a := s.u.Rel[i].A[j]
	body := bytesOf(i, j, a.Size, pl)
	if s.body != nil {
		body = s.body(i, j)
	}
	cut := len(body) * a.Cut / 100
	if s.u.Kill == "download" && j == len(s.u.Rel[i].A)-1 {
		fmt.Fprintf(w, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(body))
		w.Write(body[:len(body)*s.u.At/100])
		time.Sleep(30 * time.Millisecond)
		s.stop()
		return false
	}
	fine := func() {
		s.mu.Lock()
		s.fine++
		all := s.fine == len(s.u.Rel[i].A)
		s.mu.Unlock()
		if all && s.u.Kill == "install" {
			go func() {
				time.Sleep(time.Duration(s.u.At) * time.Millisecond)
				s.stop()
			}()
		}
	}
	chunks := func(b []byte) {
		for len(b) > 0 {
			n := 10000
			if n > len(b) {
				n = len(b)
			}
			fmt.Fprintf(w, "%x\r\n%s\r\n", n, b[:n])
			b = b[n:]
		}
	}
	switch a.How {
	case "moved":
		if len(p) == 5 {
			fmt.Fprintf(w, "HTTP/1.1 302 Found\r\nLocation: %s/again\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", req.URL.Path)
			return false
		}
		fallthrough
	case "length":
		fmt.Fprintf(w, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n", len(body))
		w.Write(body)
		fine()
	case "chunked":
		io.WriteString(w, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n")
		chunks(body)
		io.WriteString(w, "0\r\n\r\n")
		fine()
	case "close":
		io.WriteString(w, "HTTP/1.0 200 OK\r\nConnection: close\r\n\r\n")
		w.Write(body)
		fine()
	case "short":
		fmt.Fprintf(w, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(body))
		w.Write(body[:cut])
	case "short-chunked":
		io.WriteString(w, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
		chunks(body[:cut])
	case "nothing", "refused":
	default:
		fmt.Fprintf(w, "HTTP/1.1 %s Answer\r\nContent-Length: 2\r\nConnection: close\r\n\r\n", a.How)
		if a.How != "204" {
			io.WriteString(w, "{}")
		}
	}
	return false
}

func good(a Asset) bool {
	switch a.How {
	case "length", "chunked", "close", "moved":
		return a.Odd == ""
	}
	return false
}

// copyOf makes a copy of a file.
func copyOf(from, to string, mode os.FileMode) {
	b, err := os.ReadFile(from)
	if err == nil {
		err = os.WriteFile(to, b, mode)
	}
	if err == nil {
		err = os.Chmod(to, mode)
	}
	if err != nil {
		vp.Infra(err)
	}
}

// digest describes a file with some contents.
func digest(b []byte) string {
	return fmt.Sprintf("%d bytes, sum %08x: %.30q", len(b), crc32.ChecksumIEEE(b), b)
}

// list describes what is in a directory: the permissions, a blank and the contents.
func list(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			out[rel] = "directory"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "link to " + l
		default:
			b, _ := os.ReadFile(p)
			out[rel] = fmt.Sprintf("%v %s", fi.Mode().Perm(), digest(b))
		}
		return nil
	})
	return out
}

// contents drops the permissions of what list gives.
func contents(s string) string {
	if i := strings.IndexByte(s, ' '); i >= 0 {
		return s[i+1:]
	}
	return s
}

func isOld(name string) bool {
	return strings.HasSuffix(name, ".old") && (strings.HasPrefix(name, "alda.") || strings.HasPrefix(name, "alda-player.") || strings.HasPrefix(name, "alda-extra."))
}

func update(u *Update, r *vp.R) error {
	b, _ := json.Marshal(u)
	r.Sample(fmt.Sprintf("%.700s", b))
	h := home("update")
	user := 0
	if u.Place != "" {
		// Somebody else has to be able to get there.
		d, err := os.MkdirTemp("/tmp", "vp-update")
		if err != nil {
			vp.Infra(err)
		}
		defer os.RemoveAll(d)
		os.Chmod(d, 0755)
		h = &box.Home{Dir: d}
		user = 54321
		for _, s := range []string{"cache", "config", "data", "home", "work", "tmp", "bin"} {
			os.MkdirAll(h.Sub(s), 0755)
			if err := os.Chown(h.Sub(s), user, user); err != nil {
				vp.Infra(err)
			}
		}
	}
	defer os.RemoveAll(h.Dir)
	dir := h.Sub("bin")
	os.MkdirAll(filepath.Join(dir, "sub"), 0755)
	exe := filepath.Join(dir, "alda")
	copyOf(box.Alda(), exe, 0755)
	player := filepath.Join(dir, "alda-player")
	switch u.Player {
	case "there":
		put(player, "the player")
		os.Chmod(player, 0755)
	case "read-only":
		put(player, "the player")
		os.Chmod(player, 0555)
	}
	for _, f := range u.Others {
		put(filepath.Join(dir, f), "other")
	}
	if user != 0 {
		os.Chown(player, user, user)
		os.Chown(dir, 0, 0)
		if u.Place == "sticky" {
			os.Chmod(dir, 0777|os.ModeSticky)
		}
	}
	run := exe
	if u.Link {
		run = h.Sub("tmp", "alda")
		if err := os.Symlink(exe, run); err != nil {
			vp.Infra(err)
		}
	}
	post := box.NewPost()
	defer post.Close()
	s := &shop{u: u, took: map[string]int{}, stop: func() {}}
	post.Reply = s.reply
	before, beforeTmp := list(dir), list(h.Sub("tmp"))

	args := []string{"update"}
	if u.Version != "" {
		args = append(args, "--version", u.Version)
	}
	if u.Yes {
		args = append(args, "-y")
	}
	res, ended := launch(h, run, args, u, user, post, s)
	what := fmt.Sprintf("alda %q", args)
	if !ended {
		return fmt.Errorf("%s does not end: %v", what, res)
	}
	after := list(dir)

	took := len(s.took) > 0

	// What is to be expected.
	asked := "GET /releases/latest?from-version=" + generated.ClientVersion + "\n"
	if u.Version != "" {
		asked = ""
	}
	fails, refuses, open := false, false, false
	var rel *Release
	switch {
	case u.Api != "" && !(u.Api == "null release" && (u.Version == "" && len(u.Rel) == 0)):
		fails = true
		if u.Api == "array" || u.Api == "null" || u.Api == "number" || u.Api == "null release" || u.Api == "no releases" {
			open = true // nothing to install: it may ask nevertheless
		}
	case len(u.Rel) == 0:
		fails = u.Version != ""
	case u.Pick < 0: // none is chosen
		fails = true
	default:
		rel = &u.Rel[u.Pick]
	}
	if rel != nil {
		if rel.Missing == "assets" || rel.Missing == "platform" {
			fails = true
		}
		for _, a := range rel.A {
			if !good(a) {
				fails = true
			}
			if u.Limit > 0 && a.Size > u.Limit*1024 {
				fails = true
			}
		}
		if u.Place == "foreign" {
			fails = true
		}
		if u.Place == "sticky" {
			fails = true
			for _, a := range rel.A {
				if len(rel.A) == 1 && a.Name == "alda-player" && good(a) && rel.Missing != "assets" && rel.Missing != "platform" {
					fails = false
				}
			}
		}
		if !u.Yes {
			switch u.Answer {
			case "y\n", "\n", "Yes\n", "maybe\ny\n", " Y \r\n":
			case "n\n", "no\n", "NO\n", "yeah\nn\n":
				refuses = true
			default: // no answer at all
				refuses, open = true, true
			}
		}
	}
	if asked != "" && !strings.HasPrefix(s.api, asked) {
		return fmt.Errorf("%s asks %q, not %q", what, s.api, asked)
	}
	if u.Version != "" && s.api != "" {
		p := strings.TrimPrefix(strings.SplitN(s.api, "\n", 2)[0], "GET /release/")
		if v, err := url.PathUnescape(p); err != nil || v != u.Version {
			return fmt.Errorf("%s asks %q", what, s.api)
		}
	}
	if len(s.bad) > 0 {
		return fmt.Errorf("%s fetches %q, which is not for this platform", what, s.bad)
	}
	delete(s.took, fmt.Sprint(pickOf(rel, refuses, u)))
	if len(s.took) > 0 {
		return fmt.Errorf("%s fetches something that was not agreed to: %v", what, s.took)
	}
	if strings.Contains(res.Err, "goroutine ") || strings.Contains(res.Err, "panic:") {
		return fmt.Errorf("%s crashes: %v", what, res)
	}
	names := []string{}
	for k := range before {
		names = append(names, k)
	}
	sort.Strings(names)

	if u.Kill != "" && rel != nil && res.Dead {
		// At every moment, all programs are there, old or new.
		r.Label("killed")
		for _, k := range names {
			if after[k] == before[k] {
				continue
			}
			ok := false
			if u.Kill == "install" {
				for j, a := range rel.A {
					if a.Name == k && after[k] != "" {
						ok = ok || contents(after[k]) == digest(bytesOf(u.Pick, j, a.Size, platform))
					}
				}
				for x, v := range after {
					ok = ok || after[k] == "" && isOld(x) && v == before[k]
				}
			}
			if !ok {
				return fmt.Errorf("%s was ended by signal %d during %s, and %q is neither the old nor the new one: %q", what, u.Signal, u.Kill, k, after[k])
			}
		}
		r.NonTrivial()
		return nil
	}
	install := rel != nil && !fails && !refuses
	if !install || u.Kill == "download" {
		for _, k := range names {
			if after[k] != before[k] {
				return fmt.Errorf("%s does not install anything (%v), but %q was %q and is %q", what, res, k, before[k], after[k])
			}
		}
		for k := range after {
			if _, ok := before[k]; !ok {
				return fmt.Errorf("%s does not install anything (%v), but leaves %q behind", what, res, k)
			}
		}
	}
	if !open && u.Kill == "" {
		ok := install || rel != nil && refuses || rel == nil && !fails
		if ok != (res.Code == 0) || !ok && strings.TrimSpace(res.Err) == "" {
			return fmt.Errorf("%s: %v", what, res)
		}
	}
	if install && u.Kill != "download" {
		new := map[string]bool{}
		for j, a := range rel.A {
			new[a.Name] = true
			if contents(after[a.Name]) != digest(bytesOf(u.Pick, j, a.Size, platform)) {
				return fmt.Errorf("%s succeeds (%v), but %q is not what was delivered: %q", what, res, a.Name, after[a.Name])
			}
			if fi, err := os.Stat(filepath.Join(dir, a.Name)); err != nil || fi.Mode().Perm()&0111 != 0111 {
				return fmt.Errorf("%s succeeds, but %q can't be executed (%v)", what, a.Name, err)
			}
		}
		for _, k := range names {
			if !new[k] && after[k] != before[k] {
				return fmt.Errorf("%s changes %q, which is no part of the release, from %q to %q", what, k, before[k], after[k])
			}
		}
		for k := range after {
			if _, ok := before[k]; !ok && !new[k] && !isOld(k) {
				return fmt.Errorf("%s leaves %q behind", what, k)
			}
		}
		r.Label("installed")
		r.NonTrivial()
	} else if took {
		r.Label("failed after the beginning")
		r.NonTrivial()
	}
	if err := box.SameFiles(beforeTmp, list(h.Sub("tmp"))); err != nil && !res.Dead {
		return fmt.Errorf("%s leaves something with the temporary files: %v", what, err)
	}
	return nil
}

func pickOf(rel *Release, refuses bool, u *Update) int {
	if rel == nil || refuses {
		return -1
	}
	return u.Pick
}

func launch(h *box.Home, exe string, args []string, u *Update, user int, post *box.Post, s *shop) (box.Result, bool) {
	full := append([]string{exe}, args...)
	if u.Limit > 0 {
		full = append([]string{"/bin/bash", "-c", fmt.Sprintf(`ulimit -c 0; ulimit -f %d; exec "$@"`, u.Limit), "sh"}, full...)
	}
	cmd := exec.Command(full[0], full[1:]...)
	cmd.Env = h.Env(append(post.Env(h), "ALDA_DISABLE_TELEMETRY=yes")...)
	cmd.Dir = h.Sub("work")
	cmd.Stdin = strings.NewReader(u.Answer)
	if user != 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(user), Gid: uint32(user)}}
	}
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	cmd.WaitDelay = 5 * time.Second
	ready := make(chan bool)
	s.stop = func() {
		<-ready
		cmd.Process.Signal(syscall.Signal(u.Signal))
	}
	if err := cmd.Start(); err != nil {
		vp.Infra(err)
	}
	close(ready)
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	ended := true
	select {
	case err = <-done:
	case <-time.After(2 * box.Patience):
		ended = false
		cmd.Process.Kill()
		err = <-done
	}
	r := box.Result{Out: out.String(), Err: errs.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			vp.Infra(err)
		}
		r.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.Dead = true
		}
	}
	return r, ended
}

// Doctor is a use of `alda doctor`, until the installation of a player.
type Doctor struct {
	Installed string // none, same, other, broken
	Rel       Release
	Api       string
	Answer    string
}

func genDoctor(t *rapid.T) *Doctor {
	d := &Doctor{Rel: genRelease(t), Installed: rapid.SampledFrom([]string{"none", "none", "other", "other", "same", "broken"}).Draw(t, "installed"),
		Answer: rapid.SampledFrom([]string{"y\n", "y\n", "\n", "yes\n", "huh\ny\n", "n\n", "no\n", ""}).Draw(t, "answer")}
	if rapid.IntRange(0, 9).Draw(t, "api") == 0 {
		d.Api = rapid.SampledFrom([]string{"404", "500", "text", "short", "array", "refused"}).Draw(t, "what api")
	}
	return d
}

func doctor(d *Doctor, r *vp.R) error {
	b, _ := json.Marshal(d)
	r.Sample(fmt.Sprintf("%.500s", b))
	h := home("doctor")
	defer os.RemoveAll(h.Dir)
	dir := h.Sub("bin")
	os.MkdirAll(dir, 0755)
	exe, player := filepath.Join(dir, "alda"), filepath.Join(dir, "alda-player")
	copyOf(box.Alda(), exe, 0755)
	script := func(version string, status int, more int) []byte {
		return []byte(fmt.Sprintf("#!/bin/sh\n[ \"$1\" = info ] && echo 'alda-player %s'\nexit %d\n%s", version, status, strings.Repeat("#", more)))
	}
	if d.Installed != "none" {
		text := script(map[string]string{"same": generated.ClientVersion, "other": "1.2.3", "broken": "1.2.3"}[d.Installed], map[string]int{"broken": 3}[d.Installed], 10)
		put(player, string(text))
		os.Chmod(player, 0755)
	}
	u := &Update{Version: generated.ClientVersion, Rel: []Release{d.Rel}, Api: d.Api, Answer: d.Answer}
	post := box.NewPost()
	defer post.Close()
	s := &shop{u: u, took: map[string]int{}, stop: func() {}}
	s.body = func(i, j int) []byte { return script(generated.ClientVersion, 0, d.Rel.A[j].Size) }
	post.Reply = s.reply
	before := list(dir)

	// The first player is started after the installation; that is all that
	// matters here.
	cmd := exec.Command(exe, "doctor", "--no-audio")
	cmd.Env = h.Env(append(post.Env(h), "ALDA_DISABLE_TELEMETRY=yes", "PATH="+dir+":/usr/bin:/bin")...)
	cmd.Dir = h.Sub("work")
	cmd.Stdin = strings.NewReader(d.Answer)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var errs bytes.Buffer
	cmd.Stderr = &errs
	pipe, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		vp.Infra(err)
	}
	late := time.AfterFunc(2*box.Patience, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	out, reached := "", false
	buf := make([]byte, 4096)
	for {
		n, err := pipe.Read(buf)
		out += string(buf[:n])
		if strings.Contains(out, "OK  Spawn a player process") {
			reached = true
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			break
		}
		if err != nil {
			break
		}
	}
	werr := cmd.Wait()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if !late.Stop() && !reached {
		return fmt.Errorf("alda doctor does not end: %q", out)
	}
	res := fmt.Sprintf("%v, output %q, errors %q", werr, out, errs.String())
	after := list(dir)
	if strings.Contains(errs.String(), "goroutine ") {
		return fmt.Errorf("alda doctor crashes: %s", res)
	}
	install := d.Api == "" && (d.Installed == "none" || d.Installed == "other")
	agreed := (d.Installed == "none" || d.Installed == "other") && d.Answer != "" && d.Answer != "n\n" && d.Answer != "no\n"
	n := -1
	for j, a := range d.Rel.A {
		if a.Name == "alda-player" {
			n = j
		}
		switch a.Odd {
		case "string", "null", "no name", "no type", "no url", "number": // nothing can be made of the release
			install = false
		}
	}
	if d.Rel.Missing == "assets" || d.Rel.Missing == "platform" || n < 0 || !good(d.Rel.A[n]) || !agreed {
		install = false
	}
	if !agreed && s.api != "" {
		return fmt.Errorf("alda doctor asks for %q without consent: %s", s.api, res)
	}
	if agreed && !strings.HasPrefix(s.api, "GET /release/"+generated.ClientVersion+"\n") {
		return fmt.Errorf("alda doctor asks for %q: %s", s.api, res)
	}
	for _, x := range s.names {
		if x != "alda-player" {
			return fmt.Errorf("alda doctor fetches %q", x)
		}
	}
	if reached != (install || d.Installed == "same") {
		return fmt.Errorf("alda doctor: %s", res)
	}
	if !reached && (werr == nil || strings.TrimSpace(errs.String()) == "") {
		return fmt.Errorf("alda doctor fails without an error: %s", res)
	}
	want := map[string]string{}
	for k, v := range before {
		want[k] = v
	}
	if install {
		r.Label("installed")
		r.NonTrivial()
		want["alda-player"] = "-rwxr-xr-x " + digest(s.body(0, n))
		for k := range after {
			if _, ok := want[k]; !ok && isOld(k) {
				want[k] = after[k]
			}
		}
	} else if agreed {
		r.NonTrivial()
	}
	if err := box.SameFiles(want, after); err != nil {
		return fmt.Errorf("alda doctor: %v (%s)", err, res)
	}
	return nil
}

func init() {
	vp.Add("P35", "doctor", 600, 15000, genDoctor, doctor, vp.Flaky())
	vp.Add("P35", "update", 2400, 60000, genUpdate, update, vp.Flaky())
}
