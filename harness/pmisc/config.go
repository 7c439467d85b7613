package pmisc

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/sisu-network/dheart/core/config"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"

	"dverif/pbt"
)

func tmpFile(t *pbt.T) string {
	dir, err := ioutil.TempDir(os.Getenv("PBT_SCRATCH"), "cfg")
	if err != nil {
		panic(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	return filepath.Join(dir, "dheart.toml")
}

var cfgPieces = []string{"a", "node0", "127.0.0.1", "/", ":", " ", "\"", "\\", "\n", "\t", "\r", "'", "#", "=", "[db]", "]", "{{", "}}",
	"é", "世", "\x00", "\x7f", "\u0085", "\u2028", "😀", "\\u0041", "\\n", "%s", ",", "&", "<", "`", "\"\"\"", "\x1b"}

func cfgString(t *pbt.T) string {
	if t.Prob(1, 2) {
		return t.Str(3, cfgPieces[:6]...)
	}
	return t.Str(8, cfgPieces...)
}

func cfgPort(t *pbt.T) int {
	switch t.Int(0, 4) {
	case 0:
		return t.Int(1, 65535)
	case 1:
		return 0
	case 2:
		return -t.Int(1, 100000)
	default:
		return int(t.Choose(1 << 62))
	}
}

// ConfigRoundTrip writes configurations with the service's writer and reads them with its reader.
func ConfigRoundTrip(t *pbt.T) {
	c := config.HeartConfig{
		HomeDir:           cfgString(t),
		UseOnMemory:       t.Bool(),
		ShortcutPreparams: t.Bool(),
		SisuServerUrl:     cfgString(t),
		Port:              cfgPort(t),
		Db: config.DbConfig{Host: cfgString(t), Port: cfgPort(t), Username: cfgString(t),
			Password: cfgString(t), Schema: cfgString(t)},
		Connection: p2ptypes.ConnectionsConfig{Host: cfgString(t), Port: cfgPort(t), Rendezvous: cfgString(t)},
	}
	for i := t.Int(0, 4); i > 0; i-- {
		c.Connection.Peers = append(c.Connection.Peers, &p2ptypes.Peer{Address: cfgString(t), PubKey: cfgString(t), PubKeyType: cfgString(t)})
	}
	path := tmpFile(t)
	if t.Prob(1, 6) {
		// Overwriting a longer file must not leave parts of it behind.
		ioutil.WriteFile(path, []byte(strings.Repeat("old = 1\n", 200)), 0600)
	}
	config.WriteConfigFile(path, c)
	bz, _ := ioutil.ReadFile(path)
	got, err := config.ReadConfig(path)
	t.Note("file:\n%s", bz)
	if err != nil {
		t.Failf("written-unreadable", "the written file cannot be read: %v", err)
	}
	diff := func(name string, a, b interface{}) {
		if !reflect.DeepEqual(a, b) {
			t.Failf("round-trip-"+name, "%s: wrote %#v, read %#v", name, a, b)
		}
	}
	diff("home-dir", c.HomeDir, got.HomeDir)
	diff("use-on-memory", c.UseOnMemory, got.UseOnMemory)
	diff("shortcut-preparams", c.ShortcutPreparams, got.ShortcutPreparams)
	diff("sisu-server-url", c.SisuServerUrl, got.SisuServerUrl)
	diff("port", c.Port, got.Port)
	diff("db.host", c.Db.Host, got.Db.Host)
	diff("db.port", c.Db.Port, got.Db.Port)
	diff("db.username", c.Db.Username, got.Db.Username)
	diff("db.password", c.Db.Password, got.Db.Password)
	diff("db.schema", c.Db.Schema, got.Db.Schema)
	diff("connection.host", c.Connection.Host, got.Connection.Host)
	diff("connection.port", c.Connection.Port, got.Connection.Port)
	diff("connection.rendezvous", c.Connection.Rendezvous, got.Connection.Rendezvous)
	diff("connection.peers", len(c.Connection.Peers), len(got.Connection.Peers))
	for i := range c.Connection.Peers {
		diff(fmt.Sprintf("connection.peers"), *c.Connection.Peers[i], *got.Connection.Peers[i])
	}
	if len(c.Connection.Peers) > 0 || strings.ContainsAny(c.HomeDir+c.Db.Password, "\"\\\n") {
		t.NonTrivial()
	}
}

// The settings documented by the configuration file in the repository, and in-memory.
type setting struct {
	table, key, kind string
	get              func(c *config.HeartConfig) interface{}
}

var settings = []setting{
	{"", "home-dir", "s", func(c *config.HeartConfig) interface{} { return c.HomeDir }},
	{"", "use-on-memory", "b", func(c *config.HeartConfig) interface{} { return c.UseOnMemory }},
	{"", "shortcut-preparams", "b", func(c *config.HeartConfig) interface{} { return c.ShortcutPreparams }},
	{"", "sisu-server-url", "s", func(c *config.HeartConfig) interface{} { return c.SisuServerUrl }},
	{"", "port", "i", func(c *config.HeartConfig) interface{} { return c.Port }},
	{"log_dna", "secret", "s", func(c *config.HeartConfig) interface{} { return c.LogDNA.Secret }},
	{"log_dna", "app_name", "s", func(c *config.HeartConfig) interface{} { return c.LogDNA.AppName }},
	{"log_dna", "host_name", "s", func(c *config.HeartConfig) interface{} { return c.LogDNA.HostName }},
	{"log_dna", "flush_interval", "d", func(c *config.HeartConfig) interface{} { return c.LogDNA.FlushInterval.Duration }},
	{"log_dna", "max_buffer_len", "i", func(c *config.HeartConfig) interface{} { return c.LogDNA.MaxBufferLen }},
	{"db", "host", "s", func(c *config.HeartConfig) interface{} { return c.Db.Host }},
	{"db", "port", "i", func(c *config.HeartConfig) interface{} { return c.Db.Port }},
	{"db", "username", "s", func(c *config.HeartConfig) interface{} { return c.Db.Username }},
	{"db", "password", "s", func(c *config.HeartConfig) interface{} { return c.Db.Password }},
	{"db", "schema", "s", func(c *config.HeartConfig) interface{} { return c.Db.Schema }},
	{"db", "in-memory", "b", func(c *config.HeartConfig) interface{} { return c.Db.InMemory }},
	{"connection", "host", "s", func(c *config.HeartConfig) interface{} { return c.Connection.Host }},
	{"connection", "port", "i", func(c *config.HeartConfig) interface{} { return c.Connection.Port }},
	{"connection", "rendezvous", "s", func(c *config.HeartConfig) interface{} { return c.Connection.Rendezvous }},
}

var words = []string{"", "a", "dheart", "node-0", "http://0.0.0.0:25456", "file://db/migrations/", "p@ss'word #1", "x=y", "[db]"}

func zeroOf(k string) interface{} {
	switch k {
	case "b":
		return false
	case "i":
		return 0
	case "d":
		return time.Duration(0)
	}
	return ""
}

type docFile struct {
	text  string
	want  map[int]interface{}
	peers []p2ptypes.Peer
	lines []int // indexes of lines that hold a key and a value
}

// genFile writes a file with a random choice of the documented settings, in a random layout.
func genFile(t *pbt.T) *docFile {
	f := &docFile{want: map[int]interface{}{}}
	var lines []string
	noise := func() {
		switch t.Weighted(6, 1, 1) {
		case 1:
			lines = append(lines, "# a comment = 1 [x]")
		case 2:
			lines = append(lines, "")
		}
	}
	emit := func(table string, indent string) {
		var idx []int
		for i, s := range settings {
			if s.table == table {
				idx = append(idx, i)
			}
		}
		for _, j := range t.Perm(len(idx)) {
			i := idx[j]
			if t.Prob(1, 4) {
				continue
			}
			s := settings[i]
			var lit string
			switch s.kind {
			case "s":
				v := t.OneOf(words...)
				f.want[i] = v
				if t.Bool() || strings.Contains(v, "'") {
					lit = `"` + v + `"`
				} else {
					lit = "'" + v + "'"
				}
			case "b":
				v := t.Bool()
				f.want[i], lit = v, fmt.Sprint(v)
			case "i":
				v := t.Int(0, 70000)
				f.want[i], lit = v, fmt.Sprint(v)
			case "d":
				n := t.Int(0, 500)
				u := t.Int(0, 3)
				f.want[i] = time.Duration(n) * []time.Duration{time.Second, time.Millisecond, time.Minute, time.Hour}[u]
				lit = fmt.Sprintf(`"%d%s"`, n, []string{"s", "ms", "m", "h"}[u])
			}
			f.lines = append(f.lines, len(lines))
			lines = append(lines, indent+s.key+t.OneOf(" = ", "=", "  =  ")+lit+t.OneOf("", "", " # note"))
			noise()
		}
	}
	emit("", "")
	tables := []string{"log_dna", "db", "connection"}
	for _, i := range t.Perm(3) {
		indent := t.OneOf("", "  ", "\t")
		lines = append(lines, "["+tables[i]+"]")
		noise()
		emit(tables[i], indent)
		if tables[i] == "connection" {
			for k := t.Int(0, 4); k > 0; k-- {
				p := p2ptypes.Peer{Address: fmt.Sprintf("/dns/dheart%d/tcp/%d/p2p/12D3", k, t.Int(1, 65535)), PubKey: fmt.Sprintf("%02x", t.Int(0, 255)), PubKeyType: t.OneOf("ed25519", "secp256k1")}
				f.peers = append(f.peers, p)
				lines = append(lines, "[[connection.peers]]")
				kv := []string{`address = "` + p.Address + `"`, `pubkey = "` + p.PubKey + `"`, `pubkey_type = "` + p.PubKeyType + `"`}
				for _, j := range t.Perm(3) {
					f.lines = append(f.lines, len(lines))
					lines = append(lines, indent+kv[j])
				}
				noise()
			}
		}
	}
	f.text = strings.Join(lines, t.OneOf("\n", "\n", "\r\n")) + t.OneOf("\n", "")
	return f
}

// ConfigDocumented reads files with any choice of documented settings.
func ConfigDocumented(t *pbt.T) {
	f := genFile(t)
	path := tmpFile(t)
	ioutil.WriteFile(path, []byte(f.text), 0600)
	t.Note("file:\n%s", f.text)
	c, err := config.ReadConfig(path)
	if err != nil {
		t.Failf("documented-unreadable", "a file with documented settings is refused: %v", err)
	}
	for i, s := range settings {
		want, ok := f.want[i]
		if !ok {
			want = zeroOf(s.kind)
		}
		if got := s.get(&c); got != want {
			t.Failf("setting-"+s.table+"."+s.key, "%s.%s is read as %#v, the file says %#v", s.table, s.key, got, want)
		}
	}
	if len(c.Connection.Peers) != len(f.peers) {
		t.Failf("peers", "%d peers read, the file has %d", len(c.Connection.Peers), len(f.peers))
	}
	for i, p := range f.peers {
		if *c.Connection.Peers[i] != p {
			t.Failf("peers", "peer %d is read as %+v, the file says %+v", i, *c.Connection.Peers[i], p)
		}
	}
	if len(f.want) >= 5 {
		t.NonTrivial()
	}
}

// ConfigMalformed breaks a valid file in a way that makes it invalid TOML or of the wrong types.
func ConfigMalformed(t *pbt.T) {
	f := genFile(t)
	path := tmpFile(t)
	sep := "\n"
	if strings.Contains(f.text, "\r\n") {
		sep = "\r\n"
	}
	ls := strings.Split(f.text, sep)
	pick := func() int { return t.Int(0, len(ls)-1) }
	insert := func(i int, s string) { ls = append(ls[:i], append([]string{s}, ls[i:]...)...) }
	how := t.OneOf("missing-file", "unclosed-string", "no-equals", "no-value", "port-string", "port-float", "bool-string", "table-unclosed", "duplicate-key", "string-number", "peers-string", "directory", "bad-duration", "binary")
	switch how {
	case "missing-file":
	case "directory":
		os.Mkdir(path, 0700)
	case "unclosed-string":
		insert(pick(), `zz = "abc`)
	case "no-equals":
		insert(pick(), "just some words")
	case "no-value":
		insert(pick(), "zz =")
	case "table-unclosed":
		insert(pick(), "[zz")
	case "duplicate-key":
		ls = append([]string{"zz = 1", "zz = 2"}, ls...)
	case "binary":
		insert(pick(), "\x01\x02\x03")
	case "port-string":
		ls = []string{`port = "5678"`}
	case "port-float":
		ls = []string{"[db]", "port = 1.5"}
	case "bool-string":
		ls = []string{`use-on-memory = "true"`}
	case "string-number":
		ls = []string{"sisu-server-url = 5"}
	case "peers-string":
		ls = []string{"[connection]", `peers = "x"`}
	case "bad-duration":
		ls = []string{"[log_dna]", `flush_interval = "soon"`}
	}
	if how != "missing-file" && how != "directory" {
		ioutil.WriteFile(path, []byte(strings.Join(ls, sep)), 0600)
		t.Note("file:\n%s", strings.Join(ls, sep))
	}
	t.Label("%s", how)
	t.NonTrivial()
	if c, err := config.ReadConfig(path); err == nil {
		t.Failf("malformed-"+how, "a malformed file (%s) is accepted: %+v", how, c)
	}
}
