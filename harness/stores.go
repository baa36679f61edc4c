//go:build go1.22

package main

// C23 SQL storages, C24 queue storages, C25 record JSON, C26 loading, C27 configuration.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/config"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/mysql"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/nats"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/postgresql"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/rabbitmq"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/redis"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/tarantool_queue"
	"github.com/sirupsen/logrus"
)

func init() {
	register("C23", Check{Run: func(c *Ctx) { runStores(c, []string{"postgresql", "mysql"}) }, Limit: 240 * time.Second, Rule: "one case is one storage with a stand-in database and a history of saves and faults; distinct by the records and the fault pattern"})
	register("C24", Check{Run: func(c *Ctx) { runStores(c, []string{"redis", "nats", "rabbitmq", "tarantool_queue"}) }, Limit: 240 * time.Second, Rule: "one case is one storage with a stand-in broker and a history of saves and faults; distinct by the records and the fault pattern"})
	register("C25", Check{Run: runC25, Race: true, Rule: "one case is one record; distinct by its JSON"})
	register("C26", Check{Run: runC26, Limit: 240 * time.Second, Rule: "one case is one storage configuration; distinct by the set of storages and their parameters"})
	register("C27", Check{Run: runC27, Rule: "one case is one configuration file; distinct by its text"})
}

var storeKinds = []string{"postgresql", "mysql", "redis", "nats", "rabbitmq", "tarantool_queue"}

func newStore(kind string) storage.Store {
	switch kind {
	case "postgresql":
		return &postgresql.Connector{}
	case "mysql":
		return &mysql.Connector{}
	case "redis":
		return &redis.Connector{}
	case "nats":
		return &nats.Connector{}
	case "rabbitmq":
		return &rabbitmq.Connector{}
	}
	return &tarantool_queue.Connector{}
}

func word(r *rand.Rand) string {
	n := 1 + r.Intn(10)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz_0123456789"[r.Intn(26+r.Intn(12))]
	}
	if r.Intn(3) == 0 { // names keep their case
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = bytes.ToUpper(b[i : i+1])[0]
			}
		}
	}
	return "q" + string(b)
}

// secret makes a password; how says which characters are possible.
func secret(r *rand.Rand, how string) string {
	switch r.Intn(5) {
	case 0:
		return ""
	case 1:
		return word(r)
	}
	n := 1 + r.Intn(16)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, how[r.Intn(len(how))])
	}
	return string(b)
}

const (
	anyChars  = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCXYZ[\\]^_`abcxyz{|}~"
	someChars = "!#$&*+-.0123456789;=ABCXYZ^_abcxyz|~:@"
)

// setup gives the stand-in its expectations and returns the configuration that meets
// them, and where deliveries must arrive.
// oddName is a name as queues may have it: any case, punctuation, spaces, other scripts.
func oddName(r *rand.Rand) string {
	w := word(r)
	switch r.Intn(8) {
	case 0:
		return strings.ToUpper(w)
	case 1:
		return " " + w + " "
	case 2:
		return w + ":" + word(r)
	case 3:
		return "точки/" + w
	case 4:
		return w + "\t" + strings.ToUpper(word(r)) + "%s"
	}
	return w
}

func (f *fake) setup(r *rand.Rand) (map[string]string, string) {
	f.user, f.database = word(r), word(r)
	cfg := map[string]string{}
	switch f.kind {
	case "postgresql":
		f.password = secret(r, anyChars)
		if r.Intn(4) == 0 {
			f.user = "u " + f.user + "'\\x"
		}
		tbl := word(r)
		if r.Intn(3) == 0 {
			tbl = strings.ToUpper(tbl[:1]) + tbl[1:] + "_" + strings.ToUpper(word(r))
		}
		if r.Intn(3) == 0 {
			tbl = word(r) + "." + tbl
		}
		cfg = map[string]string{"host": f.host, "port": f.port, "user": f.user, "password": f.password, "database": f.database, "table": tbl, "sslmode": "disable"}
		return cfg, tbl
	case "mysql":
		f.password = secret(r, someChars)
		tbl := word(r)
		if r.Intn(3) == 0 {
			tbl = strings.ToUpper(tbl[:1]) + tbl[1:] + "_" + strings.ToUpper(word(r))
		}
		if r.Intn(3) == 0 {
			tbl = word(r) + "." + tbl
		}
		uri := f.user + ":" + f.password + "@tcp(" + f.addr() + ")/" + f.database
		if r.Intn(3) == 0 {
			uri += "?interpolateParams=true"
		}
		cfg = map[string]string{"uri": uri, "table": tbl}
		return cfg, tbl
	case "redis":
		f.password = secret(r, anyChars)
		q := oddName(r)
		db := "0"
		cfg = map[string]string{"server": f.addr(), "queue": q}
		if f.password != "" || coin(r) {
			cfg["password"] = f.password
		}
		if coin(r) {
			db = strconv.Itoa(r.Intn(16))
			cfg["db"] = db
		}
		return cfg, db + "|" + q
	case "nats":
		t := word(r)
		if r.Intn(4) == 0 {
			t = strings.ToUpper(t) + "-" + word(r)
		}
		if r.Intn(3) == 0 {
			t += "." + word(r)
		}
		cfg = map[string]string{"servers": "nats://" + f.addr(), "topic": t}
		switch r.Intn(5) { // one of several, the others are down
		case 0:
			cfg["servers"] = "nats://" + freshAddr() + "," + cfg["servers"]
		case 1:
			cfg["servers"] += ", nats://" + freshAddr()
		}
		if coin(r) {
			f.password = secret(r, anyChars)
			if r.Intn(3) == 0 {
				f.user += "@:/ "
			}
			cfg["user"], cfg["password"] = f.user, f.password
		} else {
			f.user = ""
		}
		return cfg, t
	case "rabbitmq":
		f.password = secret(r, anyChars)
		if r.Intn(3) == 0 {
			f.user += "@:/%41 "
		}
		ex, key := oddName(r), oddName(r)
		if r.Intn(4) == 0 {
			ex = ""
		}
		if r.Intn(3) == 0 {
			key += "." + word(r)
		}
		cfg = map[string]string{"host": f.host, "port": f.port, "user": f.user, "password": f.password, "exchange": ex, "key": key}
		return cfg, ex + "|" + key
	}
	f.password = secret(r, anyChars)
	q := word(r)
	if r.Intn(3) == 0 {
		q = strings.ToUpper(q) + "_" + word(r)
	}
	cfg = map[string]string{"host": f.host, "port": f.port, "user": f.user, "password": f.password, "queue": q,
		"max_recons": strconv.Itoa(1 + r.Intn(3)), "timeout": "20", "reconnect": "1"}
	return cfg, q
}

func async(kind string) bool { return kind == "nats" || kind == "rabbitmq" }

// rowRec is a record with given bytes.
type rowRec struct {
	b   []byte
	err error
}

func (m *rowRec) ToBytes() ([]byte, error) { return m.b, m.err }

var errSerial = errors.New("cannot be serialised")

func genFloat(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return []float64{90, -90, 180, -180, 1e-9, -1e-9, 5e-324, math.MaxFloat64, 1e21, 1e-7, 0.1, 1.0 / 3, 1e20, 123456789.125}[r.Intn(14)]
	case 2:
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	}
	return (r.Float64()*2 - 1) * 180
}

func genI64(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, 1 << 31, 1 << 32}[r.Intn(9)]
	case 1:
		return int64(r.Uint64())
	}
	return epoch2010 + int64(r.Uint32())
}

func genNav(r *rand.Rand) *storage.NavRecord {
	n := &storage.NavRecord{Client: genU32(r), PacketID: genU32(r), NavigationTimestamp: genI64(r), ReceivedTimestamp: genI64(r),
		Latitude: genFloat(r), Longitude: genFloat(r), Speed: genU16(r), Pdop: genU16(r), Hdop: genU16(r), Vdop: genU16(r), Nsat: genU8(r), Ns: genU16(r), Course: genU16(r)}
	cnt := func() int {
		switch r.Intn(6) {
		case 0:
			return 0
		case 1:
			if r.Intn(60) == 0 {
				return 1000 + r.Intn(3000)
			}
			return 1 + r.Intn(80)
		}
		return r.Intn(4)
	}
	for i := cnt(); i > 0; i-- {
		n.AnSensors = append(n.AnSensors, storage.AnSensor{SensorNumber: genU8(r), Value: genU32(r)})
	}
	for i := cnt(); i > 0; i-- {
		n.LiquidSensors = append(n.LiquidSensors, storage.LiquidSensor{SensorNumber: genU8(r), ErrorFlag: []string{"0", "1", ""}[r.Intn(3)], ValueMm: genU32(r), ValueL: genU32(r)})
	}
	if r.Intn(10) == 0 {
		n.AnSensors = []storage.AnSensor{}
	}
	return n
}

// genRow makes a record for a storage: a real one, or one with awkward JSON.
func genRow(r *rand.Rand, serial int) (interface{ ToBytes() ([]byte, error) }, string) {
	if r.Intn(3) > 0 {
		n := genNav(r)
		n.PacketID = uint32(serial)
		b, _ := n.ToBytes()
		return n, string(b)
	}
	odd := []string{"'", "''", "\\", "\\'", "\"", "$1", "?", "); DROP TABLE x; --", "привет", "\u2028", "<&>", "\n\t\r", "%s%d", "\x00", strings.Repeat("x", 1+r.Intn(70000)), "`", "${a}", "\xf0\x9f\x9a\x97"}
	var s string
	for i := r.Intn(4); i >= 0; i-- {
		s += odd[r.Intn(len(odd))]
	}
	b, _ := json.Marshal(map[string]interface{}{"serial": serial, "text": s})
	return &rowRec{b: b}, string(b)
}

// samePlace compares where a delivery went; PostgreSQL does not tell the case of names apart.
func samePlace(kind, got, want string) bool {
	return got == want || kind == "postgresql" && strings.EqualFold(got, want)
}

func checkDeliveries(k *Case, f *fake, where string, want []string) {
	if async(f.kind) {
		waitFor(k, func() bool { return len(f.deliveries()) >= len(want) || len(f.oddities()) > 0 })
	}
	if o := f.oddities(); len(o) > 0 {
		k.Failf("%s: the stand-in server was sent something that is no insert or publish: %s", f.kind, o[0])
	}
	got := f.deliveries()
	for i, w := range want {
		if i >= len(got) {
			k.Failf("%s: record %d of %d did not arrive", f.kind, i, len(want))
		}
		if got[i].payload != w {
			k.Note("want", w)
			k.Note("got", got[i].payload)
			k.Failf("%s: delivery %d is not record %d as serialised", f.kind, i, i)
		}
		if !samePlace(f.kind, got[i].where, where) {
			k.Failf("%s: record %d arrived at %q, want %q", f.kind, i, got[i].where, where)
		}
	}
	if len(got) > len(want) {
		k.Failf("%s: %d deliveries of %d records", f.kind, len(got), len(want))
	}
	k.Count("deliveries_"+f.kind, int64(len(got)))
}

func initStore(k *Case, f *fake, cfg map[string]string) storage.Store {
	s := newStore(f.kind)
	if err := s.Init(cfg); err != nil {
		k.Note("config", fmt.Sprintf("%q", cfg))
		f.mu.Lock()
		k.Note("logins", fmt.Sprintf("%q", f.logins))
		f.mu.Unlock()
		k.Failf("%s: cannot initialise with right parameters: %v", f.kind, err)
	}
	return s
}

// closeStore closes a storage and lets the stand-in see everything that was sent.
func closeStore(k *Case, s storage.Store, f *fake) {
	done := make(chan struct{})
	go func() { s.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(patience):
	}
	waitFor(k, func() bool {
		f.mu.Lock()
		defer f.mu.Unlock()
		return len(f.conns) == 0
	})
}

func runStores(c *Ctx, kinds []string) {
	req := []string{"answers_late"}
	for _, kd := range kinds {
		req = append(req, "deliveries_"+kd, "refused_logins", "unserialisable")
	}
	c.Require(req...)
	each := func(group string, n, par int, f func(k *Case, kind string)) {
		c.Cases(group, n*len(kinds), par, func(k *Case) {
			kind := kinds[k.Index%len(kinds)]
			k.Note("storage", kind)
			f(k, kind)
		})
	}
	each("saves", c.N(60), srvPar, func(k *Case, kind string) {
		f := startFake(k, kind)
		defer f.stop()
		cfg, where := f.setup(k.R)
		f.limit = 6
		k.Note("config", fmt.Sprintf("%q", cfg))
		s := initStore(k, f, cfg)
		var want []string
		for i, n := 0, 1+k.R.Intn(40); i < n; i++ {
			m, b := genRow(k.R, i)
			want = append(want, b)
			if err := s.Save(m); err != nil {
				k.Note("record", b)
				k.Failf("%s: save %d failed although the server accepted everything: %v", kind, i, err)
			}
		}
		k.Sig(kind, strings.Join(want, ""))
		checkDeliveries(k, f, where, want)
		closeStore(k, s, f)
		checkDeliveries(k, f, where, want)
	})
	// many saves one after the other need no more than a few connections
	each("long", 1+c.N(1), srvPar, func(k *Case, kind string) {
		n := 1500
		if k.Index < len(kinds) {
			n = 66500
		}
		f := startFake(k, kind)
		defer f.stop()
		cfg, where := f.setup(k.R)
		f.limit = 6
		s := initStore(k, f, cfg)
		var want []string
		for i := 0; i < n; i++ {
			m := genNav(k.R)
			m.PacketID = uint32(i)
			b, _ := m.ToBytes()
			want = append(want, string(b))
			if err := s.Save(m); err != nil {
				k.Failf("%s: save %d failed: %v", kind, i, err)
			}
		}
		k.Sig(kind, strings.Join(want, ""))
		checkDeliveries(k, f, where, want)
		closeStore(k, s, f)
		checkDeliveries(k, f, where, want)
	})
	each("unserialisable", c.N(15), srvPar, func(k *Case, kind string) {
		f := startFake(k, kind)
		defer f.stop()
		cfg, where := f.setup(k.R)
		f.limit = 6
		s := initStore(k, f, cfg)
		var want []string
		for i := 0; i < 15; i++ {
			switch k.R.Intn(4) {
			case 0:
				bad := &rowRec{err: errSerial}
				if coin(k.R) {
					bad.b = []byte(`{"half":`)
				}
				if err := s.Save(bad); err == nil {
					k.Failf("%s: a record that cannot be serialised was reported as saved", kind)
				}
				k.Count("unserialisable", 1)
			case 1:
				if err := s.Save(nil); err == nil {
					k.Failf("%s: no record at all was reported as saved", kind)
				}
				k.Count("unserialisable", 1)
			case 2:
				if err := s.Save(&storage.NavRecord{Latitude: math.NaN()}); err == nil {
					k.Failf("%s: a record that cannot be serialised was reported as saved", kind)
				}
				k.Count("unserialisable", 1)
			default:
				m, b := genRow(k.R, i)
				want = append(want, b)
				if err := s.Save(m); err != nil {
					k.Failf("%s: save %d failed: %v", kind, i, err)
				}
			}
		}
		k.Sig(kind, strings.Join(want, ""))
		checkDeliveries(k, f, where, want)
		closeStore(k, s, f)
		checkDeliveries(k, f, where, want)
	})
	each("logins", c.N(24), srvPar, func(k *Case, kind string) {
		f := startFake(k, kind)
		defer f.stop()
		cfg, _ := f.setup(k.R)
		how := k.R.Intn(3)
		k.Note("config", fmt.Sprintf("%q", cfg))
		k.Note("how", how)
		k.Sig(kind, how, fmt.Sprint(cfg))
		switch how {
		case 0:
			f.rejectLogin = true
		case 1: // nobody there
			f.stop()
		case 2:
			if kind == "nats" && f.user == "" {
				f.user = "someone"
			}
			f.password += "x"
		}
		s := newStore(kind)
		err := s.Init(cfg)
		if err == nil && kind == "redis" {
			err = s.Save(&rowRec{b: []byte("{}")})
		}
		if err == nil {
			k.Failf("%s: a server that refuses the connection (how: %d) was reported as usable", kind, how)
		}
		if len(f.deliveries()) != 0 {
			k.Failf("%s: something was delivered without a login", kind)
		}
		k.Count("refused_logins", 1)
	})
	each("concurrent", c.N(4), 2, func(k *Case, kind string) {
		f := startFake(k, kind)
		defer f.stop()
		cfg, where := f.setup(k.R)
		s := initStore(k, f, cfg)
		const gs, per = 8, 30
		var fs []func(*Case)
		want := make([][]string, gs)
		for g := 0; g < gs; g++ {
			g := g
			var ms []interface{ ToBytes() ([]byte, error) }
			r := subRand(k.R)
			for i := 0; i < per; i++ {
				n := genNav(r)
				n.Client, n.PacketID = uint32(g), uint32(i)
				b, _ := n.ToBytes()
				ms = append(ms, n)
				want[g] = append(want[g], string(b))
			}
			fs = append(fs, func(k *Case) {
				for i, m := range ms {
					if err := s.Save(m); err != nil {
						k.Failf("%s: concurrent save %d failed: %v", kind, i, err)
					}
				}
			})
		}
		together(k, fs...)
		if async(kind) {
			waitFor(k, func() bool { return len(f.deliveries()) >= gs*per })
		}
		closeStore(k, s, f)
		next := make([]int, gs)
		var order []byte
		for _, d := range f.deliveries() {
			var n struct{ Client *uint32 }
			if err := json.Unmarshal([]byte(d.payload), &n); err != nil || n.Client == nil || int(*n.Client) >= gs {
				k.Note("got", d.payload)
				k.Failf("%s: something arrived that was not saved", kind)
			}
			g := int(*n.Client)
			order = append(order, byte(g))
			if !samePlace(kind, d.where, where) {
				k.Failf("%s: a record arrived at %q, want %q", kind, d.where, where)
			}
			if next[g] >= per || d.payload != want[g][next[g]] {
				k.Failf("%s: goroutine %d: delivery %d is not its record %d", kind, g, next[g], next[g])
			}
			next[g]++
		}
		for g, n := range next {
			if n != per {
				k.Failf("%s: %d of %d records of goroutine %d arrived", kind, n, per, g)
			}
		}
		if o := f.oddities(); len(o) > 0 {
			k.Failf("%s: %s", kind, o[0])
		}
		k.Sig(kind, order)
		k.Count("deliveries_"+kind, gs*per)
	})
	// two storages of the same kind do not disturb each other
	each("two", c.N(8), srvPar, func(k *Case, kind string) {
		var fk [2]*fake
		var where [2]string
		var st [2]storage.Store
		var want [2][]string
		for i := range fk {
			fk[i] = startFake(k, kind)
			defer fk[i].stop()
			var cfg map[string]string
			cfg, where[i] = fk[i].setup(k.R)
			st[i] = initStore(k, fk[i], cfg)
		}
		for i := 0; i < 30; i++ {
			j := k.R.Intn(2)
			m, b := genRow(k.R, i)
			want[j] = append(want[j], b)
			if err := st[j].Save(m); err != nil {
				k.Failf("%s: save failed: %v", kind, err)
			}
		}
		k.Sig(kind, strings.Join(want[0], ""))
		for i := range fk {
			checkDeliveries(k, fk[i], where[i], want[i])
			closeStore(k, st[i], fk[i])
			checkDeliveries(k, fk[i], where[i], want[i])
		}
	})
	// refused one by one
	sync1 := func(kind string) bool { return !async(kind) }
	each("refused", c.N(30), srvPar, func(k *Case, kind string) {
		if !sync1(kind) {
			return
		}
		f := startFake(k, kind)
		defer f.stop()
		cfg, where := f.setup(k.R)
		bad, onlyLate := map[string]bool{}, map[string]bool{}
		var mu sync.Mutex
		refuse := func(late bool) func(d delivery) string {
			return func(d delivery) string {
				mu.Lock()
				defer mu.Unlock()
				if bad[d.payload] && (late || !onlyLate[d.payload]) {
					return "refused by the server"
				}
				return ""
			}
		}
		f.limit = 6
		f.refuse, f.refuseCommit = refuse(false), refuse(true)
		s := initStore(k, f, cfg)
		var want []string
		all := ""
		for i, n := 0, 5+k.R.Intn(30); i < n; i++ {
			m, b := genRow(k.R, i)
			no := k.R.Intn(3) == 0
			mu.Lock()
			bad[b], onlyLate[b] = no, coin(k.R)
			mu.Unlock()
			all += b
			err := s.Save(m)
			if no && err == nil {
				k.Failf("%s: a record the server refused was reported as saved", kind)
			}
			if !no && err != nil {
				k.Failf("%s: save %d failed although the server accepted it (an earlier one was refused): %v", kind, i, err)
			}
			if no {
				k.Count("refused_records", 1)
			} else {
				want = append(want, b)
			}
		}
		k.Sig(kind, all)
		checkDeliveries(k, f, where, want)
		closeStore(k, s, f)
		checkDeliveries(k, f, where, want)
	})
	// the connection breaks before a record is taken
	each("broken", c.N(10), srvPar, func(k *Case, kind string) {
		if kind != "postgresql" && kind != "mysql" && kind != "redis" {
			return
		}
		f := startFake(k, kind)
		defer f.stop()
		cfg, where := f.setup(k.R)
		var mu sync.Mutex
		breaks := map[string]int{}
		f.drop = func(d delivery) bool {
			mu.Lock()
			defer mu.Unlock()
			if breaks[d.payload] > 0 {
				breaks[d.payload]--
				return true
			}
			return false
		}
		s := initStore(k, f, cfg)
		var want []string
		for i := 0; i < 12; i++ {
			m, b := genRow(k.R, i)
			if k.R.Intn(3) == 0 {
				mu.Lock()
				breaks[b] = 1
				mu.Unlock()
			} else if k.R.Intn(5) == 0 {
				f.dropAll() // between two saves
				time.Sleep(5 * time.Millisecond)
			}
			before := len(f.deliveries())
			err := s.Save(m)
			took := len(f.deliveries()) - before
			if err != nil {
				// it may be reported as failed; the next one must go through
				k.Count("broken_saves", 1)
				if took != 0 {
					k.Failf("%s: a save reported as failed was stored %d times", kind, took)
				}
				mu.Lock()
				breaks[b] = 0
				mu.Unlock()
				if err := s.Save(m); err != nil {
					k.Retryf("%s: a broken connection spoils the next save too: %v", kind, err)
				}
			} else if took != 1 {
				k.Failf("%s: a save reported as successful was stored %d times", kind, took)
			}
			want = append(want, b)
		}
		k.Sig(kind, strings.Join(want, ""))
		checkDeliveries(k, f, where, want)
		closeStore(k, s, f)
		checkDeliveries(k, f, where, want)
	})
	// the record is taken, the answer is lost or late
	once := func(k *Case, kind string, f *fake, s storage.Store, where string, odd func(i int) bool) {
		var want []string
		has, odds := map[string]int{}, map[string]bool{}
		for i := 0; i < 8; i++ {
			m, b := genRow(k.R, i)
			want = append(want, b)
			special := odd(i)
			odds[b] = special
			err := s.Save(m)
			if err != nil && !special {
				k.Retryf("%s: an answer lost or late spoils the next save too: %v", kind, err)
			}
			if err != nil {
				k.Count("answers_lost", 1)
			}
		}
		closeStore(k, s, f)
		for _, d := range f.deliveries() {
			has[d.payload]++
			if !samePlace(kind, d.where, where) {
				k.Failf("%s: a record arrived at %q, want %q", kind, d.where, where)
			}
		}
		for i, w := range want {
			if kind == "redis" && odds[w] && has[w] > 1 && has[w] <= 4 {
				k.c.Known(k, "redis-lost-answer", fmt.Sprintf("redis: record %d, whose answer was lost or late, was published %d times", i, has[w]))
			} else if has[w] != 1 {
				k.Failf("%s: record %d, which the server took at once, was stored %d times", kind, i, has[w])
			}
		}
		if len(has) != len(want) {
			k.Failf("%s: %d different records stored, want %d", kind, len(has), len(want))
		}
		k.Sig(kind, strings.Join(want, ""))
		k.Count("deliveries_"+kind, int64(len(want)))
	}
	each("lost", c.N(10), srvPar, func(k *Case, kind string) {
		if !sync1(kind) || kind == "tarantool_queue" {
			return
		}
		f := startFake(k, kind)
		defer f.stop()
		cfg, where := f.setup(k.R)
		var arm int32
		f.lose = func(delivery) bool { return atomic.CompareAndSwapInt32(&arm, 1, 0) }
		s := initStore(k, f, cfg)
		once(k, kind, f, s, where, func(int) bool {
			if k.R.Intn(3) == 0 {
				atomic.StoreInt32(&arm, 1)
				return true
			}
			return false
		})
	})
	waits := []time.Duration{700 * time.Millisecond, 1600 * time.Millisecond, 3400 * time.Millisecond, 6500 * time.Millisecond}
	if kinds[0] == "postgresql" { // no waiting time of its own
		waits = append(waits, 12*time.Second, 32*time.Second)
	}
	if c.Thorough() && kinds[0] == "postgresql" {
		waits = append(waits, 62*time.Second, 125*time.Second, 310*time.Second)
	}
	defer c.Beside("late", len(waits)*len(kinds)*4, 100, func(k *Case) {
		kind := kinds[k.Index%len(kinds)]
		wait := waits[k.Index/len(kinds)%len(waits)]
		if !sync1(kind) {
			return
		}
		k.Note("storage", kind)
		k.Note("answer takes", wait.String())
		f := startFake(k, kind)
		defer f.stop()
		cfg, where := f.setup(k.R)
		var arm int32
		f.hold = func(delivery) time.Duration {
			if atomic.CompareAndSwapInt32(&arm, 1, 0) {
				return wait
			}
			return 0
		}
		s := initStore(k, f, cfg)
		at := k.R.Intn(5)
		once(k, kind, f, s, where, func(i int) bool {
			if i == at {
				atomic.StoreInt32(&arm, 1)
				k.Count("answers_late", 1)
			}
			return i == at
		})
	})()
	// the server goes away for good
	each("gone", c.N(2), srvPar, func(k *Case, kind string) {
		if kind == "nats" {
			return // its client keeps messages until the server returns
		}
		f := startFake(k, kind)
		defer f.stop()
		cfg, where := f.setup(k.R)
		s := initStore(k, f, cfg)
		var want []string
		for i := 0; i < 3; i++ {
			m, b := genRow(k.R, i)
			want = append(want, b)
			if err := s.Save(m); err != nil {
				k.Failf("%s: save failed: %v", kind, err)
			}
		}
		checkDeliveries(k, f, where, want)
		f.stop()
		limit := time.Now().Add(patience)
		for i := 0; ; i++ {
			m, _ := genRow(k.R, 1000+i)
			if err := s.Save(m); err != nil {
				break
			}
			if sync1(kind) {
				k.Failf("%s: a record was reported as saved after the server was gone", kind)
			}
			if time.Now().After(limit) {
				k.Failf("%s: records are reported as saved although the server has been gone for %v", kind, patience)
			}
			time.Sleep(20 * time.Millisecond)
		}
		for i := 0; i < 3; i++ {
			m, _ := genRow(k.R, 2000+i)
			if err := s.Save(m); err == nil {
				k.Failf("%s: a record was reported as saved after the server was gone", kind)
			}
		}
		k.Sig(kind, k.Index)
		k.Count("server_gone", 1)
	})
	// no configuration
	each("noconfig", 1, 1, func(k *Case, kind string) {
		if err := newStore(kind).Init(nil); err == nil {
			k.Failf("%s: initialised without a configuration", kind)
		}
		k.Sig(kind)
	})
}

// ---- C25 ----

// jsonKeys checks that an object has each key once.
func jsonKeys(b []byte) (map[string]int, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	if t != json.Delim('{') {
		return nil, fmt.Errorf("not an object")
	}
	out := map[string]int{}
	for d.More() {
		t, err := d.Token()
		if err != nil {
			return nil, err
		}
		out[t.(string)]++
		var v json.RawMessage
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
	}
	if _, err := d.Token(); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("data after the object")
	}
	return out, nil
}

var navKeys = []string{"client", "packet_id", "navigation_unix_time", "received_unix_time", "latitude", "longitude", "speed", "pdop", "hdop", "vdop", "nsat", "ns", "course", "an_sensors", "liquid_sensors"}

func sameRecord(b []byte, n *storage.NavRecord) string {
	keys, err := jsonKeys(b)
	if err != nil {
		return err.Error()
	}
	for _, kn := range navKeys {
		if keys[kn] != 1 {
			return fmt.Sprintf("field %s occurs %d times", kn, keys[kn])
		}
	}
	m, err := parseNav(b)
	if err != nil {
		return err.Error()
	}
	type pair struct {
		n    string
		a, b interface{}
	}
	for _, p := range []pair{{"client", n.Client, *m.Client}, {"packet_id", n.PacketID, *m.PacketID}, {"navigation_unix_time", n.NavigationTimestamp, *m.NavTime}, {"received_unix_time", n.ReceivedTimestamp, *m.RecvTime},
		{"latitude", math.Float64bits(n.Latitude), math.Float64bits(*m.Lat)}, {"longitude", math.Float64bits(n.Longitude), math.Float64bits(*m.Lon)}, {"speed", n.Speed, *m.Speed}, {"pdop", n.Pdop, *m.Pdop}, {"hdop", n.Hdop, *m.Hdop}, {"vdop", n.Vdop, *m.Vdop},
		{"nsat", n.Nsat, *m.Nsat}, {"ns", n.Ns, *m.Ns}, {"course", n.Course, *m.Course}, {"number of an_sensors", len(n.AnSensors), len(m.AnSensors)}, {"number of liquid_sensors", len(n.LiquidSensors), len(m.Liquid)}} {
		if p.a != p.b {
			return fmt.Sprintf("%s is %v in the JSON, %v in the record", p.n, p.b, p.a)
		}
	}
	for i, s := range n.AnSensors {
		if m.AnSensors[i].N != s.SensorNumber || m.AnSensors[i].V != s.Value {
			return fmt.Sprintf("an_sensors[%d] differs", i)
		}
	}
	for i, s := range n.LiquidSensors {
		x := m.Liquid[i]
		if x.N != s.SensorNumber || x.E != s.ErrorFlag || x.Mm != s.ValueMm || x.L != s.ValueL {
			return fmt.Sprintf("liquid_sensors[%d] differs", i)
		}
	}
	// the fields of the sensors, by name
	var raw struct {
		A []map[string]interface{} `json:"an_sensors"`
		L []map[string]interface{} `json:"liquid_sensors"`
	}
	_ = json.Unmarshal(b, &raw)
	for _, s := range raw.A {
		for _, kn := range []string{"sensor_number", "value"} {
			if _, ok := s[kn]; !ok {
				return "an_sensors without " + kn
			}
		}
	}
	for _, s := range raw.L {
		for _, kn := range []string{"sensor_number", "error_flag", "value_mm", "value_l"} {
			if _, ok := s[kn]; !ok {
				return "liquid_sensors without " + kn
			}
		}
	}
	return ""
}

func copyNav(n *storage.NavRecord) *storage.NavRecord {
	m := *n
	m.AnSensors = append([]storage.AnSensor(nil), n.AnSensors...)
	m.LiquidSensors = append([]storage.LiquidSensor(nil), n.LiquidSensors...)
	if n.AnSensors != nil && m.AnSensors == nil {
		m.AnSensors = []storage.AnSensor{}
	}
	if n.LiquidSensors != nil && m.LiquidSensors == nil {
		m.LiquidSensors = []storage.LiquidSensor{}
	}
	return &m
}

type logHook struct {
	mu  sync.Mutex
	got []string
}

func (h *logHook) Levels() []logrus.Level { return logrus.AllLevels }
func (h *logHook) Fire(e *logrus.Entry) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	if s, ok := e.Data["packet"].(string); ok {
		h.got = append(h.got, s)
	}
	return nil
}

func runC25(c *Ctx) {
	c.Require("records_compared", "concurrent_calls", "logged_records", "unserialisable")
	c.Cases("records", c.N(8000), 8, func(k *Case) {
		n := genNav(k.R)
		was := copyNav(n)
		b, err := n.ToBytes()
		if err != nil {
			k.Failf("a record cannot be serialised: %v", err)
		}
		k.Note("json", string(b))
		k.Sig(b)
		if m := sameRecord(b, was); m != "" {
			k.Failf("%s", m)
		}
		if !reflect.DeepEqual(n, was) {
			k.Failf("serialising changed the record")
		}
		keep := string(b)
		for i := range b {
			b[i] = 'x'
		}
		other := genNav(k.R)
		ob, _ := other.ToBytes()
		os := string(ob)
		b2, err := n.ToBytes()
		if err != nil || string(b2) != keep {
			k.Failf("the same record serialises differently the second time")
		}
		if string(ob) != os {
			k.Failf("bytes of one record changed when another was serialised")
		}
		var back storage.NavRecord
		if err := json.Unmarshal(b2, &back); err != nil {
			k.Failf("the JSON does not parse back: %v", err)
		}
		b3, err := back.ToBytes()
		if err != nil || sameRecord(b3, was) != "" {
			k.Failf("a record parsed back from its JSON is another record: %s", sameRecord(b3, was))
		}
		k.Count("records_compared", 1)
	})
	// each field on its own, at its extremes
	c.Cases("fields", 1, 1, func(k *Case) {
		t := reflect.TypeOf(storage.NavRecord{})
		for i := 0; i < t.NumField(); i++ {
			for x := 0; x < 12; x++ {
				n := &storage.NavRecord{}
				f := reflect.ValueOf(n).Elem().Field(i)
				switch f.Kind() {
				case reflect.Uint8, reflect.Uint16, reflect.Uint32:
					f.SetUint(uint64(1)<<uint(x*3%f.Type().Bits()) | uint64(x%2)*(math.MaxUint64>>uint(64-f.Type().Bits())))
				case reflect.Int64:
					f.SetInt([]int64{math.MaxInt64, math.MinInt64, -1, 1, 1<<53 + 1, -(1<<53 + 1)}[x%6])
				case reflect.Float64:
					f.SetFloat([]float64{-1e-300, 90, -180, 5e-324, math.MaxFloat64, 0.1 + 0.2}[x%6])
				case reflect.Slice:
					f.Set(reflect.MakeSlice(f.Type(), x*25, x*25))
				}
				b, err := n.ToBytes()
				if err != nil {
					k.Failf("%s: %v", t.Field(i).Name, err)
				}
				if m := sameRecord(b, n); m != "" {
					k.Failf("only %s set: %s", t.Field(i).Name, m)
				}
				k.Count("records_compared", 1)
			}
		}
		k.Sig("fields")
	})
	c.Cases("concurrent", c.N(40), 1, func(k *Case) {
		ns := make([]*storage.NavRecord, 4)
		want := make([]string, len(ns))
		for i := range ns {
			ns[i] = genNav(k.R)
			b, err := ns[i].ToBytes()
			if err != nil {
				k.Failf("%v", err)
			}
			want[i] = string(b)
			k.Sig(b)
		}
		var fs []func(*Case)
		for g := 0; g < 8; g++ {
			g := g
			fs = append(fs, func(k *Case) {
				for j := 0; j < 40; j++ {
					i := (g + j) % len(ns)
					b, err := ns[i].ToBytes()
					if err != nil || string(b) != want[i] {
						k.Failf("a record serialises differently from several goroutines: %v", err)
					}
				}
			})
		}
		together(k, fs...)
		k.Count("concurrent_calls", 320)
	})
	// the log storage writes the same record
	h := &logHook{}
	logrus.AddHook(h)
	c.Cases("log", c.N(300), 1, func(k *Case) {
		n := genNav(k.R)
		was := copyNav(n)
		h.mu.Lock()
		h.got = nil
		h.mu.Unlock()
		if err := (storage.LogConnector{}).Save(n); err != nil {
			k.Failf("the log storage failed: %v", err)
		}
		h.mu.Lock()
		defer h.mu.Unlock()
		if len(h.got) != 1 {
			k.Failf("the log storage logged %d records", len(h.got))
		}
		k.Sig(h.got[0])
		if m := sameRecord([]byte(h.got[0]), was); m != "" {
			k.Failf("logged record: %s", m)
		}
		if !reflect.DeepEqual(n, was) {
			k.Failf("logging changed the record")
		}
		k.Count("logged_records", 1)
	})
	// a record JSON cannot express is an error, not an empty or partial text
	c.Cases("unserialisable", c.N(60), 1, func(k *Case) {
		n := genNav(k.R)
		bad := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[k.Index%3]
		if coin(k.R) {
			n.Latitude = bad
		} else {
			n.Longitude = bad
		}
		k.Sig(k.Index)
		h.mu.Lock()
		h.got = nil
		h.mu.Unlock()
		if b, err := n.ToBytes(); err == nil {
			k.Failf("an unserialisable record was serialised to %q", b)
		}
		if err := (storage.LogConnector{}).Save(n); err == nil {
			k.Failf("the log storage reports success for an unserialisable record")
		}
		h.mu.Lock()
		defer h.mu.Unlock()
		if len(h.got) != 0 {
			k.Failf("the log storage printed %q for an unserialisable record", h.got[0])
		}
		k.Count("unserialisable", 1)
	})
}

// ---- C26 ----

func deadAddr() (string, string) {
	a := freshAddr() // nobody listens there
	h, p, _ := net.SplitHostPort(a)
	return h, p
}

func runC26(c *Ctx) {
	c.Require("storages_loaded", "loads_refused", "deliveries")
	var subsets []int
	for m := 1; m < 64; m++ {
		subsets = append(subsets, m)
	}
	c.Cases("subsets", len(subsets)*c.N(1), srvPar, func(k *Case) {
		mask := subsets[k.Index%len(subsets)]
		fakes := map[string]*fake{}
		where := map[string]string{}
		cfg := map[string]map[string]string{}
		for i, kind := range storeKinds {
			f := startFake(k, kind)
			defer f.stop()
			p, w := f.setup(k.R)
			fakes[kind], where[kind] = f, w
			if mask>>uint(i)&1 == 1 {
				cfg[kind] = p
			}
		}
		k.Note("config", fmt.Sprintf("%q", cfg))
		k.Sig(fmt.Sprint(cfg))
		repo := storage.NewRepository()
		if err := repo.LoadStorages(cfg); err != nil {
			k.Failf("a right configuration cannot be loaded: %v", err)
		}
		var want []string
		for i := 0; i < 4; i++ {
			n := genNav(k.R)
			n.PacketID = uint32(i)
			b, _ := n.ToBytes()
			want = append(want, string(b))
			if err := repo.Save(n); err != nil {
				k.Failf("save failed: %v", err)
			}
		}
		for i, kind := range storeKinds {
			f := fakes[kind]
			if mask>>uint(i)&1 == 0 {
				if f.opened > 0 {
					k.Failf("%s is not configured but was connected", kind)
				}
				continue
			}
			checkDeliveries(k, f, where[kind], want)
			k.Count("storages_loaded", 1)
			k.Count("deliveries", int64(len(want)))
		}
	})
	c.mu.Lock()
	c.res.Exhaustive = append(c.res.Exhaustive, "all 63 sets of storages")
	c.mu.Unlock()
	c.Cases("refused", c.N(80), srvPar, func(k *Case) {
		cfg := map[string]map[string]string{}
		how := []string{"unknown name", "unreachable", "refusing", "missing parameters", "empty", "nil", "unknown only", "no parameters"}[k.Index%8]
		k.Note("how", how)
		good := how != "empty" && how != "nil" && how != "unknown only"
		bad := storeKinds[k.R.Intn(len(storeKinds))]
		for bad == "redis" && (how == "unreachable" || how == "refusing") || bad == "mysql" && how == "missing parameters" {
			bad = storeKinds[k.R.Intn(len(storeKinds))]
		}
		if good {
			for _, kind := range storeKinds {
				if kind != bad && k.R.Intn(3) == 0 {
					f := startFake(k, kind)
					defer f.stop()
					p, _ := f.setup(k.R)
					cfg[kind] = p
				}
			}
		}
		f := startFake(k, bad)
		defer f.stop()
		p, _ := f.setup(k.R)
		names := []string{"postgres", "Redis", "REDIS", "kafka", "", "mysql ", "tarantool", "log", "file", "rabbit", "pg", word(k.R)}
		switch how {
		case "unknown name":
			cfg[names[k.R.Intn(len(names))]] = p
		case "unknown only":
			cfg[names[k.R.Intn(len(names))]] = map[string]string{}
		case "unreachable":
			f.stop()
			cfg[bad] = p
		case "refusing":
			f.rejectLogin = true
			cfg[bad] = p
		case "missing parameters":
			switch bad {
			case "redis":
				delete(p, []string{"server", "queue"}[k.R.Intn(2)])
			case "tarantool_queue":
				delete(p, []string{"max_recons", "timeout", "reconnect", "port"}[k.R.Intn(4)])
			case "nats":
				p["servers"] = "nats://" + func() string { h, q := deadAddr(); return h + ":" + q }()
			default:
				delete(p, "user")
				delete(p, "database")
				f.rejectLogin = true
			}
			cfg[bad] = p
		case "no parameters":
			cfg[bad] = nil
		case "nil":
			cfg = nil
		}
		k.Note("config", fmt.Sprintf("%q", cfg))
		k.Sig(how, fmt.Sprint(cfg))
		repo := storage.NewRepository()
		if err := repo.LoadStorages(cfg); err == nil {
			k.Failf("configuration with %s was loaded without an error", how)
		}
		k.Count("loads_refused", 1)
	})
}

// ---- C27 ----

// yamlScalar writes a string so that it means itself.
func yamlScalar(r *rand.Rand, s string) string {
	plain := s != "" && !strings.ContainsAny(s, " \t\n#:,[]{}&*!|>'\"%@`?\\=~") && s[0] != '-' && s[0] != '.' && s[0] != '<'
	switch strings.ToLower(s) {
	case "null", "~", "yes", "no", "on", "off", "true", "false", "y", "n", ".nan", ".inf":
		plain = false
	}
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x7f || s[i] < 0x20 {
			plain = false
		}
	}
	switch x := r.Intn(3); {
	case plain && x > 0:
		return s
	case x == 1 && !strings.ContainsAny(s, "\n\t\r"):
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	b, _ := json.Marshal(s)
	t := string(b)
	t = strings.ReplaceAll(t, `\u003c`, "<")
	t = strings.ReplaceAll(t, `\u003e`, ">")
	t = strings.ReplaceAll(t, `\u0026`, "&")
	return t
}

func yamlComment(r *rand.Rand) string {
	if r.Intn(4) == 0 {
		return " # " + []string{"comment", "port: 1", "host: x", "conn_ttl: 99"}[r.Intn(4)]
	}
	return ""
}

// genConfig makes a configuration file and says what it means.
func genConfig(r *rand.Rand) (text string, want config.Settings) {
	nl := "\n"
	if r.Intn(8) == 0 {
		nl = "\r\n"
	}
	var parts []string
	add := func(s string) { parts = append(parts, s) }
	if r.Intn(8) > 0 {
		want.Host = []string{"127.0.0.1", "0.0.0.0", "", "localhost", "example.org", "10.1.2.3", "[::1]", word(r)}[r.Intn(8)]
		add("host: " + yamlScalar(r, want.Host) + yamlComment(r) + nl)
	}
	if r.Intn(8) > 0 {
		want.Port = []string{"6000", "1", "65535", "0", "08080", "5555", "0x10", strconv.Itoa(r.Intn(65536))}[r.Intn(8)]
		v := yamlScalar(r, want.Port)
		add("port: " + v + yamlComment(r) + nl)
	}
	if r.Intn(8) > 0 {
		want.ConnTTl = []int{0, 1, 10, 60, -1, 3600, 86400, 1000000000, r.Intn(100000)}[r.Intn(9)]
		add(fmt.Sprintf("conn_ttl: %d", want.ConnTTl) + yamlComment(r) + nl)
	}
	if r.Intn(6) > 0 {
		want.LogLevel = []string{"DEBUG", "INFO", "WARN", "ERROR", "debug", "", "TRACE", "FATAL", "WARNING", "PANIC", word(r)}[r.Intn(11)]
		add("log_level: " + yamlScalar(r, want.LogLevel) + yamlComment(r) + nl)
	}
	if r.Intn(8) > 0 {
		want.Store = map[string]map[string]string{}
		s := "storage:" + yamlComment(r) + nl
		ind := strings.Repeat(" ", 1+r.Intn(4))
		names := append([]string(nil), storeKinds...)
		names = append(names, word(r), "Name With Space", "127")
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		cnt := 1 + r.Intn(5)
		if r.Intn(40) == 0 { // many sections
			for seen := map[string]bool{}; len(names) < 80; {
				if n := word(r) + strconv.Itoa(len(names)); !seen[n] {
					seen[n] = true
					names = append(names, n)
				}
			}
			cnt = 10 + r.Intn(70)
		}
		for _, n := range names[:cnt] {
			m := map[string]string{}
			flow := r.Intn(4) == 0
			s += ind + yamlScalar(r, n) + ":"
			keys := []string{"host", "port", "user", "password", "database", "table", "sslmode", "queue", "server", "db", "uri", "exchange", "key", "topic", "servers", "timeout", "reconnect", "max_recons", "conn_ttl", "log_level", word(r)}
			r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
			keys = keys[:1+r.Intn(8)]
			var items []string
			for _, kn := range keys {
				vs := []string{"", "localhost", "5432", "true", "3306", "a b", "p@ss:w#rd", "user:pw@tcp(h:1)/db?x=y&z=1", "'", "\"", "\\", "привет", "1e3", "0.5", "010", "null", "multi\nline", word(r), "nats://a:4222,nats://b:4222",
					"$" + word(r), "pa$$" + word(r), "${HOME}", "$HOME/x", "$1", "%PATH%", "%s", "%%", "~", "~/x", "`id`", "$(id)", "{{ .Env }}", "*", "&x", "!x", "file:///etc/hostname", "/etc/hostname", "@/etc/hostname",
					" lead", "trail ", "tab\there", "UPPER", "MixedCase", "a,b", "a;b", "base64:YQ==", "YWJj", "\u00a0", "0x1F", "1_000", "12:30:45", "2001-02-03", "<<", "=", "-", "- x", "? x", strings.Repeat("long", 1+r.Intn(400))}
				v := vs[r.Intn(len(vs))]
				m[kn] = v
				items = append(items, yamlScalar(r, kn)+": "+yamlScalar(r, v))
			}
			if flow {
				s += " {" + strings.Join(items, ", ") + "}" + nl
			} else {
				s += yamlComment(r) + nl
				for _, it := range items {
					s += ind + ind + it + nl
				}
			}
			want.Store[n] = m
		}
		add(s)
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	if r.Intn(4) == 0 {
		text = "---" + nl
	}
	long := r.Intn(40) == 0 // files of many kilobytes
	for _, p := range parts {
		if r.Intn(4) == 0 {
			text += "# note" + nl
		}
		if long {
			text += strings.Repeat("# "+strings.Repeat("long note, port: 1 ", 1+r.Intn(30))+nl, 1+r.Intn(400))
		}
		if r.Intn(6) == 0 {
			text += nl
		}
		text += p
	}
	return text, want
}

func checkSettings(k *Case, got *config.Settings, want config.Settings) {
	if a := want.Host + ":" + want.Port; got.GetListenAddress() != a {
		k.Failf("listen address %q, the file says %q", got.GetListenAddress(), a)
	}
	if d := time.Duration(want.ConnTTl) * time.Second; got.GetEmptyConnTTL() != d {
		k.Failf("idle time %v, the file says %v", got.GetEmptyConnTTL(), d)
	}
	lvl := logrus.InfoLevel
	switch want.LogLevel {
	case "DEBUG":
		lvl = logrus.DebugLevel
	case "WARN":
		lvl = logrus.WarnLevel
	case "ERROR":
		lvl = logrus.ErrorLevel
	}
	if got.GetLogLevel() != lvl {
		k.Failf("log level %v, the file says %q", got.GetLogLevel(), want.LogLevel)
	}
	if len(got.Store) != len(want.Store) {
		k.Failf("%d storages, the file has %d", len(got.Store), len(want.Store))
	}
	for n, m := range want.Store {
		g, ok := got.Store[n]
		if !ok {
			k.Failf("storage %q is missing", n)
		}
		if len(g) != len(m) {
			k.Failf("storage %q has %d parameters, the file %d", n, len(g), len(m))
		}
		for p, v := range m {
			if gv, ok := g[p]; !ok || gv != v {
				k.Failf("storage %q: %s is %q, the file says %q", n, p, gv, v)
			}
		}
	}
}

func runC27(c *Ctx) {
	c.Require("files_loaded", "files_refused")
	dir := filepath.Join(c.Scratch, "conf")
	os.MkdirAll(dir, 0o755)
	c.Cases("files", c.N(4000), 8, func(k *Case) {
		text, want := genConfig(k.R)
		text2, want2 := genConfig(k.R)
		k.Note("file", text)
		k.Sig(text)
		p := filepath.Join(dir, fmt.Sprintf("f%d %s.yaml", k.Index, word(k.R)))
		p2 := p + ".other"
		os.WriteFile(p, []byte(text), 0o600)
		os.WriteFile(p2, []byte(text2), 0o600)
		defer os.Remove(p)
		defer os.Remove(p2)
		got, err := config.New(p)
		if err != nil {
			k.Failf("a valid file is refused: %v", err)
		}
		checkSettings(k, &got, want)
		got2, err := config.New(p2)
		if err != nil {
			k.Note("file", text2)
			k.Failf("a valid file is refused: %v", err)
		}
		checkSettings(k, &got, want) // not disturbed by another file
		k.Note("file", text2)
		checkSettings(k, &got2, want2)
		k.Count("files_loaded", 2)
	})
	// the getters, over a range of values
	c.Cases("getters", 1, 1, func(k *Case) {
		for ttl := -10; ttl <= 100000; ttl++ {
			p := config.Settings{ConnTTl: ttl}
			if p.GetEmptyConnTTL() != time.Duration(ttl)*time.Second {
				k.Failf("conn_ttl %d means %v", ttl, p.GetEmptyConnTTL())
			}
		}
		for port := 0; port < 65536; port++ {
			p := config.Settings{Host: "h", Port: strconv.Itoa(port)}
			if p.GetListenAddress() != fmt.Sprintf("h:%d", port) {
				k.Failf("port %d means %s", port, p.GetListenAddress())
			}
		}
		k.Sig("getters")
	})
	// the shipped example
	c.Cases("shipped", 1, 1, func(k *Case) {
		files, _ := filepath.Glob("/repo/configs/*.yaml")
		for _, f := range files {
			if _, err := config.New(f); err != nil {
				k.Failf("%s: %v", f, err)
			}
			k.Count("files_loaded", 1)
		}
	})
	bad := []string{"host: [", "host: 'x", "host: \"x", "a: b: c", "\thost: x", "host: x\n port: 1\n", "{", "]", "host: x\nport: 1\n  conn_ttl: 5\n", "- a\nhost: x", "storage: {redis: {server: a", "host: *nope", "%", "storage:\n  redis:\n server: a\n   x: y", "host: @x", "host: `x`", "key: |\n x\ny"}
	c.Cases("invalid", len(bad)+c.N(200), 8, func(k *Case) {
		var text string
		if k.Index < len(bad) {
			text = bad[k.Index]
		} else {
			good, _ := genConfig(k.R)
			text = good + []string{"host2: [\n", "zz: 'x\n", "a: b: c\n", "]\n", "{\n", "zz: *nope\n", "\tx: y\n"}[k.R.Intn(7)]
		}
		p := filepath.Join(dir, fmt.Sprintf("bad%d.yaml", k.Index))
		os.WriteFile(p, []byte(text), 0o600)
		defer os.Remove(p)
		k.Note("file", text)
		k.Sig(text)
		if _, err := config.New(p); err == nil {
			k.Failf("a syntactically invalid file is accepted")
		}
		k.Count("files_refused", 1)
	})
	c.Cases("missing", 4, 1, func(k *Case) {
		p := []string{filepath.Join(dir, "nothere.yaml"), dir, filepath.Join(dir, "no", "such", "dir.yaml"), ""}[k.Index]
		if _, err := config.New(p); err == nil {
			k.Failf("%q is no file but was accepted", p)
		}
		k.Sig(p)
		k.Count("files_refused", 1)
	})
}
