package pipe

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"github.com/prometheus/common/expfmt"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/metrics"

	"verif/harness/vlib"
)

// hostOf returns a loopback address that no other shard uses, and a port that
// it did not use before.
var hosts struct {
	sync.Mutex
	host string
	port int
	wide int
}

func freeAddr(t *rapid.T) string {
	hosts.Lock()
	defer hosts.Unlock()
	if hosts.host == "" {
		pid := os.Getpid()
		hosts.host = fmt.Sprintf("127.%d.%d.%d", 1+vlib.Shard()%200, pid>>8&0xff, 1+pid&0x7f)
		hosts.port = 10000 + rand.Intn(10000)
	}
	for i := 0; i < 1000; i++ {
		hosts.port++
		if hosts.port > 20000 {
			hosts.port = 10000
		}
		addr := net.JoinHostPort(hosts.host, strconv.Itoa(hosts.port))
		if l, err := net.Listen("tcp", addr); err == nil {
			l.Close()
			return addr
		}
	}
	t.Fatal("VERIF-ERROR: no free address")
	return ""
}

// wideAddr returns an address on all interfaces or of a host name, with a port
// that no other shard uses.
func wideAddr(t *rapid.T) (listen, connect string) {
	hosts.Lock()
	defer hosts.Unlock()
	host := rapid.SampledFrom([]string{"localhost", "", "0.0.0.0"}).Draw(t, "host")
	for i := 0; i < 1000; i++ {
		hosts.wide = (hosts.wide + 1) % 1000
		port := strconv.Itoa(20001 + vlib.Shard()%11*1000 + hosts.wide)
		if l, err := net.Listen("tcp", ":"+port); err == nil {
			l.Close()
			return net.JoinHostPort(host, port), net.JoinHostPort("127.0.0.1", port)
		}
	}
	t.Fatal("VERIF-ERROR: no free port")
	return "", ""
}

var client = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

var keeping = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{}}

// style is how a scraper asks.
type style struct {
	accept, encoding, query string
	keep, old, head         bool
}

func drawStyle(t *rapid.T) style {
	if rapid.IntRange(0, 3).Draw(t, "style") != 2 {
		return style{}
	}
	return style{
		accept: rapid.SampledFrom([]string{"", "*/*", "text/plain", "text/plain;version=0.0.4", "text/html,application/xhtml+xml,*/*;q=0.8",
			"application/vnd.google.protobuf;proto=io.prometheus.client.MetricFamily;encoding=delimited;q=0.7,text/plain;version=0.0.4;q=0.3",
			"application/openmetrics-text;version=1.0.0,application/openmetrics-text;version=0.0.1;q=0.75,text/plain;version=0.0.4;q=0.5,*/*;q=0.1"}).Draw(t, "accept"),
		encoding: rapid.SampledFrom([]string{"", "gzip", "identity", "deflate, gzip;q=1.0"}).Draw(t, "encoding"),
		query:    rapid.SampledFrom([]string{"", "", "?", "?x=y"}).Draw(t, "query"),
		keep:     rapid.Bool().Draw(t, "keep"),
		old:      rapid.IntRange(0, 3).Draw(t, "old") == 2,
		head:     rapid.IntRange(0, 3).Draw(t, "head") == 2,
	}
}

// ask sends one request.
func (s style) ask(addr, method string) (*http.Response, error) {
	req, err := http.NewRequest(method, "http://"+addr+"/metrics"+s.query, nil)
	if err != nil {
		return nil, err
	}
	if s.accept != "" {
		req.Header.Set("Accept", s.accept)
	}
	if s.encoding != "" {
		req.Header.Set("Accept-Encoding", s.encoding)
	}
	if s.old {
		conn, err := net.DialTimeout("tcp", addr, 60*time.Second)
		if err != nil {
			return nil, err
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(60 * time.Second))
		fmt.Fprintf(conn, "%s /metrics%s HTTP/1.0\r\n", method, s.query)
		req.Header.Write(conn)
		fmt.Fprint(conn, "\r\n")
		resp, err := http.ReadResponse(bufio.NewReader(conn), req)
		if err != nil {
			return nil, err
		}
		body, err := io.ReadAll(resp.Body)
		if err != nil {
			return nil, err
		}
		resp.Body = io.NopCloser(bytes.NewReader(body))
		return resp, nil
	}
	if s.keep {
		return keeping.Do(req)
	}
	return client.Do(req)
}

// scrape reads the metrics at an address, waiting for the server to be there.
// There is no result if the server chose a format that is not known here.
func scrape(addr string, s style, deadline time.Duration, gone func() bool) ([]*dto.MetricFamily, error) {
	start := time.Now()
	for tries := 1; ; tries++ {
		resp, err := s.ask(addr, "GET")
		if err != nil {
			if gone() || time.Since(start) > deadline {
				return nil, fmt.Errorf("%w (after %d tries and %v, %s)", err, tries, time.Since(start), vlib.Late)
			}
			time.Sleep(2 * time.Millisecond)
			continue
		}
		body, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil {
			return nil, err
		}
		if resp.StatusCode != 200 {
			return nil, fmt.Errorf("status %s: %.300s", resp.Status, body)
		}
		if s.head {
			r, err := s.ask(addr, "HEAD")
			if err != nil {
				return nil, fmt.Errorf("HEAD: %v", err)
			}
			r.Body.Close()
		}
		if resp.Header.Get("Content-Encoding") == "gzip" {
			z, err := gzip.NewReader(bytes.NewReader(body))
			if err != nil {
				return nil, err
			}
			if body, err = io.ReadAll(z); err != nil {
				return nil, err
			}
		}
		m := map[string]*dto.MetricFamily{}
		switch f := expfmt.ResponseFormat(resp.Header); f {
		case expfmt.FmtText:
			parser := newParser()
			m, err = parser.TextToMetricFamilies(bytes.NewReader(body))
			if err != nil {
				return nil, fmt.Errorf("%v in %.1000s", err, body)
			}
		case expfmt.FmtProtoDelim:
			d := expfmt.NewDecoder(bytes.NewReader(body), f)
			for {
				x := &dto.MetricFamily{}
				if err := d.Decode(x); err == io.EOF {
					break
				} else if err != nil {
					return nil, fmt.Errorf("%v in %.1000q", err, body)
				}
				m[x.GetName()] = x
			}
		default:
			return nil, nil
		}
		var names []string
		for n := range m {
			names = append(names, n)
		}
		sort.Strings(names)
		var out []*dto.MetricFamily
		for _, n := range names {
			out = append(out, m[n])
		}
		return out, nil
	}
}

type scraped struct {
	families []*dto.MetricFamily
	err      error
}

func never() bool { return false }

// scrapeAll scrapes n times at once.
func scrapeAll(addr string, n int, gone func() bool, styles ...style) []scraped {
	out := make([]scraped, n)
	for len(styles) < n {
		styles = append(styles, style{})
	}
	var wg sync.WaitGroup
	for i := range out {
		wg.Add(1)
		go func(s *scraped, as style) {
			defer wg.Done()
			s.families, s.err = scrape(addr, as, 60*time.Second, gone)
		}(&out[i], styles[i])
	}
	wg.Wait()
	return out
}

// gate is a collector that tries to bring scrapes together.
type gate struct {
	prometheus.Counter
	sync.Mutex
	want int
	open chan struct{}
}

func (g *gate) Collect(c chan<- prometheus.Metric) {
	g.Lock()
	if g.want--; g.want == 0 {
		close(g.open)
	}
	open := g.open
	g.Unlock()
	select {
	case <-open:
	case <-time.After(300 * time.Millisecond):
	}
	g.Counter.Collect(c)
}

func newParser() *expfmt.TextParser { return &expfmt.TextParser{} }

var actWords = map[act]string{actFail: "fail", actFailWrap: "failwrap", actMissing: "missing", actMissingWrap: "missingwrap",
	actFailKnown: "failknown", actFailLike: "faillike", actFailSame: "failsame", actMissingDeep: "missingdeep", actMissingSame: "missingsame", actDrop: "drop",
	actDropFail: "dropfail", actDropMissing: "dropmissing", actCancel: "cancel", actCancelDrop: "canceldrop", actDropCancel: "dropcancel"}

// lineOf writes a plan as an input line.
func lineOf(p *pipeModel, plan map[string]act) string {
	words := []string{"text"}
	for _, n := range p.all() {
		if a := plan[n.name]; a != actOK {
			if actWords[a] == "" {
				panic("VERIF-ERROR: no word for " + a.String())
			}
			words = append(words, n.name+"="+actWords[a])
		}
	}
	return strings.Join(words, " ")
}

// runtimeMetrics have to be there besides.
func runtimeMetrics(families []*dto.MetricFamily) error {
	found := map[string]bool{}
	for _, f := range families {
		switch n := f.GetName(); {
		case n == "go_goroutines":
			found["go"] = true
		case strings.HasSuffix(n, "process_cpu_seconds_total") || strings.HasSuffix(n, "resident_memory_bytes"):
			found["process"] = true
		}
	}
	if !found["go"] || !found["process"] {
		return fmt.Errorf("no runtime metrics of the process, just %v", found)
	}
	return nil
}

func TestC21_Endpoint(t *testing.T) {
	bin := program(t, "sawmill")
	dir := t.TempDir()
	file := filepath.Join(dir, "pipeline.yml")
	vlib.Run(t, vlib.Spec{Quick: 3000, Thorough: 40000,
		Rule: "The sawmill binary on a random pipeline of nested probes that fail, drop and cancel as each line says; /metrics is scraped before, between and after the lines and compared with the counts of the reference interpreter. Non-trivial: at least two lines and two scrapes, and something failed, dropped or was recovered. Distinct by pipeline and lines."}, func(t *rapid.T, c *vlib.Case) {
		p := drawPipe(t, "pipe-id")
		for _, n := range p.all() {
			n.typ = strings.Replace(n.typ, "probe_", "line_", 1)
			n.id = strings.ReplaceAll(n.id, ".probe_", ".line_")
		}
		def, err := yaml.Marshal(definitionTree(p.config()))
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		if err := os.WriteFile(file, def, 0o600); err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		addr := freeAddr(t)
		args := []string{"-metrics-addr", addr, "-p", file}
		if rapid.IntRange(0, 7).Draw(t, "wide") == 5 {
			args[1], addr = wideAddr(t)
			c.Class("other address")
		}
		switch rapid.IntRange(0, 7).Draw(t, "args") {
		case 3:
			args = []string{"-p", file, "--metrics-addr", args[1]}
		case 4:
			args = []string{"--p=" + file, "-metrics-addr=" + args[1]}
		}
		if rapid.IntRange(0, 80).Draw(t, "default") == 37 && vlib.Shard() == 0 && os.Getenv("VERIF_TOGETHER") == "" {
			if l, err := net.Listen("tcp", "127.0.0.1:9003"); err == nil {
				l.Close()
				args, addr = []string{"-p", file}, "127.0.0.1:9003"
				c.Class("default address")
			}
		}
		cmd := exec.Command(bin, args...)
		stdin, err := cmd.StdinPipe()
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		stdout, err := cmd.StdoutPipe()
		if err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		var stderr vlib.Tail
		cmd.Stderr = &stderr
		if err := cmd.Start(); err != nil {
			t.Fatal("VERIF-ERROR:", err)
		}
		lines := make(chan string, 100000)
		ended := make(chan struct{})
		gone := func() bool {
			select {
			case <-ended:
				return true
			default:
				return false
			}
		}
		go func() {
			defer close(ended)
			s := bufio.NewScanner(stdout)
			s.Buffer(nil, 1<<20)
			for s.Scan() {
				lines <- s.Text()
			}
			close(lines)
		}()
		done := false
		defer func() {
			if !done {
				cmd.Process.Kill()
			}
			stdin.Close()
			for range lines {
			}
			cmd.Wait()
		}()

		log := fmt.Sprintf("%v", p)
		syncs, scrapes := 0, 0
		// settle waits until all lines so far are processed.
		settle := func() {
			syncs++
			word := fmt.Sprintf("sync-%d", syncs)
			if _, err := fmt.Fprintln(stdin, word); err != nil {
				t.Fatalf("%s: the program reads no more: %v", log, err)
			}
			p.interpret(nil)
			timeout := time.After(60 * time.Second)
			for {
				select {
				case l, open := <-lines:
					if !open {
						t.Fatalf("%s: the program ended: %s", log, stderr.String())
					}
					if strings.Contains(l, `"`+word+`"`) {
						return
					}
				case <-timeout:
					t.Fatalf("%s: no output for the line %q (%s) %s", log, word, vlib.Late, stderr.String())
				}
			}
		}
		compare := func() {
			k := 1
			if rapid.IntRange(0, 7).Draw(t, "parallel") == 5 {
				k = rapid.IntRange(2, 8).Draw(t, "scrapers")
				log += fmt.Sprintf(" %d at once:", k)
				c.Class("scrapes at once")
			}
			var styles []style
			for len(styles) < k {
				styles = append(styles, drawStyle(t))
			}
			for i, s := range scrapeAll(addr, k, gone, styles...) {
				if s.err != nil {
					t.Fatalf("%s: GET /metrics %+v: %v (program ended: %v) %s", log, styles[i], s.err, gone(), stderr.String())
				}
				if s.families == nil {
					c.Class("unknown format")
					continue
				}
				got, err := gather(s.families)
				if err != nil {
					t.Fatalf("%s: %v", log, err)
				}
				if err := checkCounts(got, p); err != nil {
					t.Fatalf("%s: %v", log, err)
				}
				if err := runtimeMetrics(s.families); err != nil {
					t.Fatalf("%s: %v", log, err)
				}
			}
			scrapes++
			log += " <scrape>"
		}
		if rapid.Bool().Draw(t, "before") {
			compare()
		}
		// snapshot is what the counters have to be at present.
		snapshot := func() map[metricKey]counts {
			m := map[metricKey]counts{}
			for _, n := range p.all() {
				m[metricKey{n.id, n.typ}] = counts{received: float64(n.received), dropped: float64(n.dropped), failed: float64(n.failedLo)}
			}
			return m
		}
		interesting := false
		// stream sends many lines while the counters are read.
		stream := func() {
			settle()
			before := snapshot()
			var input strings.Builder
			plan := drawPlan(t, p, true)
			k := rapid.IntRange(1, 300).Draw(t, "many")
			if n, ok := vlib.NovelSize(t, 3, 3000); ok {
				k = n
			}
			for i := 0; i < k; i++ {
				p.interpret(plan)
				fmt.Fprintln(&input, lineOf(p, plan))
			}
			after := snapshot()
			log += fmt.Sprintf("; %d times %s", k, planText(p, plan))
			sent := make(chan error, 1)
			go func() {
				_, err := io.WriteString(stdin, input.String())
				sent <- err
			}()
			last := before
			for i, m := 0, rapid.IntRange(1, 4).Draw(t, "scrapes"); i < m; i++ {
				families, err := scrape(addr, style{}, 60*time.Second, gone)
				if err != nil {
					t.Fatalf("%s: GET /metrics: %v", log, err)
				}
				got, err := gather(families)
				if err != nil {
					t.Fatalf("%s: %v", log, err)
				}
				now := map[metricKey]counts{}
				for k := range before {
					g := got[k]
					if g == nil {
						t.Fatalf("%s: no counters for %v while lines are processed", log, k)
					}
					now[k] = *g
					lo, hi := last[k], after[k]
					if g.received < lo.received || g.received > hi.received || g.dropped < lo.dropped || g.dropped > hi.dropped || g.failed < lo.failed {
						t.Fatalf("%s: counters of %v are %+v while lines are processed; they were %+v and become %+v", log, k, *g, lo, hi)
					}
				}
				last = now
			}
			if err := <-sent; err != nil {
				t.Fatalf("%s: the program reads no more: %v", log, err)
			}
			c.Class("scrapes while lines are processed")
			settle()
			compare()
		}
		n := rapid.IntRange(0, 8).Draw(t, "lines")
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 5).Draw(t, "blank") == 0 {
				fmt.Fprintln(stdin, rapid.SampledFrom([]string{"", "  "}).Draw(t, "blank line"))
			}
			plan := drawPlan(t, p, true)
			o := p.interpret(plan)
			for cl := range o.classes {
				c.Class(cl)
			}
			interesting = interesting || o.failed != "" || len(o.classes) > 0
			log += "; " + planText(p, plan)
			if _, err := fmt.Fprintln(stdin, lineOf(p, plan)); err != nil {
				t.Fatalf("%s: the program reads no more: %v", log, err)
			}
			if rapid.IntRange(0, 2).Draw(t, "scrape") == 0 {
				settle()
				compare()
			}
			if rapid.IntRange(0, 15).Draw(t, "stream") == 11 {
				stream()
			}
		}
		settle()
		compare()
		if n >= 2 && scrapes >= 2 && interesting {
			c.NonTrivial(log)
		}
		stdin.Close()
		for range lines {
		}
		err = cmd.Wait()
		done = true
		if err != nil {
			t.Fatalf("%s: the program ended with %v", log, err)
		}
	})
}

// regEntry is a collector of the registration search.
type regEntry struct {
	key  string // Name and label.
	coll interface {
		prometheus.Collector
		prometheus.Metric
	}
}

var listening struct {
	once  sync.Once
	addrs []string
}

func TestC21_Registration(t *testing.T) {
	vlib.Run(t, vlib.Spec{Quick: 8000, Thorough: 200000,
		Rule: "A random history of registering and unregistering counters of five names and three labels, several at once, duplicates included, scraped over HTTP, at one of three addresses that are listened on, between; expected are exactly the registered ones with their values, beside the runtime metrics. Non-trivial: at least one registration and one unregistration. Distinct by history."}, func(t *rapid.T, c *vlib.Case) {
		listening.once.Do(func() {
			for i := 0; i < 3; i++ {
				addr := freeAddr(t)
				listening.addrs = append(listening.addrs, addr)
				metrics.Listen(addr)
			}
		})
		addr := rapid.SampledFrom(listening.addrs).Draw(t, "address")
		pool := map[string]*regEntry{}
		live := map[string]float64{} // Registered, with their values.
		crowd := rapid.IntRange(0, 200).Draw(t, "crowd") == 117
		entry := func() *regEntry {
			name := rapid.SampledFrom([]string{"va_total", "vb_total", "vc_total", "vd", "ve_x_y_total"}).Draw(t, "name")
			label := rapid.SampledFrom([]string{"", "one", "two"}).Draw(t, "label")
			if crowd {
				label = strconv.Itoa(rapid.IntRange(0, 99).Draw(t, "number"))
			}
			key := name + "{" + label + "}"
			if pool[key] == nil {
				opts := prometheus.Opts{Name: name, Help: "help of " + name, ConstLabels: prometheus.Labels{"label": label}}
				if name == "vd" {
					pool[key] = &regEntry{key, prometheus.NewGauge(prometheus.GaugeOpts(opts))}
				} else {
					pool[key] = &regEntry{key, prometheus.NewCounter(prometheus.CounterOpts(opts))}
				}
			}
			return pool[key]
		}
		var log []string
		defer func() {
			for _, e := range pool {
				metrics.Unregister(e.coll)
			}
		}()
		compare := func() {
			k := 1
			if rapid.IntRange(0, 15).Draw(t, "parallel") == 9 {
				k = rapid.IntRange(2, 6).Draw(t, "scrapers")
				log = append(log, fmt.Sprint(k, " scrapes at once"))
				c.Class("scrapes at once")
				g := &gate{Counter: prometheus.NewCounter(prometheus.CounterOpts{Name: "gate"}), want: k, open: make(chan struct{})}
				metrics.Register(g)
				defer metrics.Unregister(g)
			}
			for _, s := range scrapeAll(addr, k, never) {
				if s.err != nil {
					t.Fatalf("%v: GET /metrics: %v", log, s.err)
				}
				got := map[string]float64{}
				for _, f := range s.families {
					if !strings.HasPrefix(f.GetName(), "v") {
						continue
					}
					for _, m := range f.GetMetric() {
						label := ""
						for _, l := range m.GetLabel() {
							label = l.GetValue()
						}
						got[f.GetName()+"{"+label+"}"] = m.GetCounter().GetValue() + m.GetGauge().GetValue()
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(live) {
					t.Fatalf("%v: exposed are %v, want %v", log, got, live)
				}
				if err := runtimeMetrics(s.families); err != nil {
					t.Fatalf("%v: %v", log, err)
				}
			}
		}
		regs, unregs := 0, 0
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "ops"); i < n; i++ {
			var es []*regEntry
			var cs []prometheus.Collector
			var keys []string
			k := rapid.IntRange(0, 4).Draw(t, "n")
			if crowd {
				c.Class("many collectors")
				k *= 30
			}
			for j := 0; j < k; j++ {
				e := entry()
				es, cs, keys = append(es, e), append(cs, e.coll), append(keys, e.key)
			}
			if rapid.IntRange(0, 2).Draw(t, "op") < 2 {
				log = append(log, fmt.Sprint("register ", keys))
				if p := vlib.Catch(func() { metrics.Register(cs...) }); p != nil {
					t.Fatalf("%v panicked: %v", log, p)
				}
				for _, e := range es {
					if _, found := live[e.key]; found {
						c.Class("registered twice")
						continue
					}
					m := &dto.Metric{}
					if err := e.coll.Write(m); err != nil {
						t.Fatal("VERIF-ERROR:", err)
					}
					live[e.key] = m.GetCounter().GetValue() + m.GetGauge().GetValue()
					regs++
				}
			} else {
				log = append(log, fmt.Sprint("unregister ", keys))
				if p := vlib.Catch(func() { metrics.Unregister(cs...) }); p != nil {
					t.Fatalf("%v panicked: %v", log, p)
				}
				for _, e := range es {
					if _, found := live[e.key]; !found {
						c.Class("unregistered what was not")
						continue
					}
					delete(live, e.key)
					unregs++
				}
			}
			for _, k := range sortedNames(pool) {
				if rapid.IntRange(0, 3).Draw(t, "add") == 0 {
					pool[k].coll.(interface{ Add(float64) }).Add(1)
					if _, found := live[k]; found {
						live[k]++
					}
				}
			}
			if rapid.Bool().Draw(t, "scrape") {
				compare()
			}
		}
		compare()
		if regs > 0 && unregs > 0 {
			c.NonTrivial(strings.Join(log, "; "))
		}
	})
}

func sortedNames(m map[string]*regEntry) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
