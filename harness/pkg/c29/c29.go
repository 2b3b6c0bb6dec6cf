// Package c29 checks the reading of configuration files.
package c29

import (
	"io/ioutil"

	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

func write(text string) string {
	p := sym.TempDir() + "/vertex.toml"
	sym.Assert(ioutil.WriteFile(p, []byte(text), 0644) == nil, "cannot write the file")
	return p
}

// same compares two configurations option by option.
func same(c, d common.Config) {
	sym.Assert(c.LogPath == d.LogPath, "the log path is wrong")
	sym.Assert(c.LogLevel == d.LogLevel, "the log level is wrong")
	sym.Assert(c.Port == d.Port, "the port is wrong")
	sym.Assert(c.DatabaseFile == d.DatabaseFile, "the database file is wrong")
	sym.Assert(c.EnableReplica == d.EnableReplica, "the replica switch is wrong")
	sym.Assert(c.ReplicaPort == d.ReplicaPort, "the replica port is wrong")
	sym.Assert(c.MasterAddress == d.MasterAddress, "the master address is wrong")
}

// defaults is what a configuration holds when no file says otherwise.
func defaults() common.Config {
	return common.Config{LogPath: "./log/vertex.log", LogLevel: "INFO", Port: 8081}
}

// any is a configuration with arbitrary values.
func arbitrary() *common.Config {
	return &common.Config{
		LogPath: sym.String("log", 2), LogLevel: sym.String("level", 1), Port: sym.Int("port"), DatabaseFile: sym.String("db", 2),
		EnableReplica: sym.Choice("replica", 2) == 1, ReplicaPort: sym.Int("rport"), MasterAddress: sym.String("master", 1),
	}
}

var names = []string{"log_path", "log_level", "port", "database_file", "enable_replica", "replica_port", "master_address"}

// text is a quoted string of the length and what it stands for.
func text(n string, l int) (string, string) {
	s := sym.String(n, l)
	for i := 0; i < l; i++ {
		sym.Assume(sym.And(s[i] >= ' ', s[i] < 0x7f, s[i] != '"', s[i] != '\\', s[i] != '\''))
	}
	switch sym.Choice(n+".quote", 2) {
	case 0:
		return "\"" + s + "\"", s
	}
	return "'" + s + "'", s
}

// number is a decimal number without leading zeros and its value.
func number(n string, digits int) (string, int) {
	s := sym.String(n, digits)
	v := 0
	for i := 0; i < digits; i++ {
		sym.Assume(sym.And(s[i] >= '0', s[i] <= '9'))
		v = v*10 + int(s[i]-'0')
	}
	if digits > 1 {
		sym.Assume(s[0] != '0')
	}
	switch sym.Choice(n+".sign", 3) {
	case 1:
		return "-" + s, -v
	case 2:
		return "+" + s, v
	}
	return s, v
}

// line is a line that sets an option to an arbitrary value, which it notes in the expected configuration.
func line(o int, tag string, size int, c *common.Config) string {
	v := ""
	switch o {
	case 0:
		v, c.LogPath = text(tag, size)
	case 1:
		v, c.LogLevel = text(tag, size)
	case 2:
		v, c.Port = number(tag, 1+size)
	case 3:
		v, c.DatabaseFile = text(tag, size)
	case 4:
		c.EnableReplica = sym.Choice(tag, 2) == 1
		v = "false"
		if c.EnableReplica {
			v = "true"
		}
	case 5:
		v, c.ReplicaPort = number(tag, 1+size)
	case 6:
		v, c.MasterAddress = text(tag, size)
	}
	return names[o] + " = " + v
}

// Any set of options.
//
//verif:harness id=C29.options quick=60 thorough=400
//verif:bounds every subset of the seven options in ascending or descending order on top of the defaults; texts of one arbitrary printable byte in either kind of quotes, numbers of two digits, both switches (for subsets of more than two options one kind of quotes and no sign)
func Options() {
	c := common.NewConfig()
	want := defaults()
	same(*c, want)
	file := ""
	down := sym.Choice("down", 2) == 1
	set := 0
	var in [7]bool
	for o := range in {
		in[o] = sym.Choice(names[o]+".in", 2) == 1
		if in[o] {
			set++
		}
	}
	for i := 0; i < 7; i++ {
		o := i
		if down {
			o = 6 - i
		}
		if !in[o] {
			continue
		}
		if set <= 2 {
			file += line(o, names[o], 1, &want) + "\n"
			continue
		}
		s := sym.String(names[o], 1)
		switch o {
		case 2, 5:
			sym.Assume(sym.And(s[0] >= '0', s[0] <= '9'))
			file += names[o] + " = 1" + s + "\n"
			if o == 2 {
				want.Port = 10 + int(s[0]-'0')
			} else {
				want.ReplicaPort = 10 + int(s[0]-'0')
			}
		case 4:
			file += "enable_replica = true\n"
			want.EnableReplica = true
		default:
			sym.Assume(sym.And(s[0] >= ' ', s[0] < 0x7f, s[0] != '"', s[0] != '\\'))
			file += names[o] + " = \"" + s + "\"\n"
			*[]*string{&want.LogPath, &want.LogLevel, nil, &want.DatabaseFile, nil, nil, &want.MasterAddress}[o] = s
		}
	}
	sym.Assert(c.Parse(write(file)) == nil, "a well-formed file is refused")
	same(*c, want)
}

// Longer values, layouts, and options that were set before.
//
//verif:harness id=C29.values quick=60 thorough=400
//verif:bounds one option set to a text of 0..3 (quick) / 0..6 (thorough) arbitrary printable bytes in either kind of quotes, a number of 1..4 / 1..7 digits with or without a sign or a switch, in six layouts (spaces, tabs, comments, blank lines, CRLF, no line end), on top of arbitrary values of all options
func Values() {
	c := arbitrary()
	want := *c
	l := line(sym.Choice("option", 7), "v", sym.Choice("size", 4+3*sym.Tier()), &want)
	switch sym.Choice("layout", 6) {
	case 0:
		l += "\n"
	case 1:
	case 2:
		l = "# port = 1\n\n\n" + l + " # port = 2\n# log_path = \"x\"\n"
	case 3:
		l = "\r\n" + l + "\r\n\r\n"
	case 4:
		l = "  \t" + l + "  \t\n \n"
	case 5:
		for i := range l {
			if l[i] == '=' {
				l = l[:i-1] + "=" + l[i+2:]
				break
			}
		}
	}
	sym.Assert(c.Parse(write(l)) == nil, "a well-formed file is refused")
	same(*c, want)
}

// Two files one after the other.
//
//verif:harness id=C29.twice quick=40 thorough=300
//verif:bounds two files of one option each with texts of 0..1 bytes and numbers of 1..2 digits, read into the same configuration, and the second one into another
func Twice() {
	c, d := common.NewConfig(), common.NewConfig()
	want, wantD := defaults(), defaults()
	a := write(line(sym.Choice("first", 7), "a", sym.Choice("a.size", 2), &want) + "\n")
	sym.Assert(c.Parse(a) == nil, "a well-formed file is refused")
	same(*c, want)
	same(*d, wantD)
	o := sym.Choice("second", 7)
	b := line(o, "b", 1, &wantD)
	switch o {
	case 0:
		want.LogPath = wantD.LogPath
	case 1:
		want.LogLevel = wantD.LogLevel
	case 2:
		want.Port = wantD.Port
	case 3:
		want.DatabaseFile = wantD.DatabaseFile
	case 4:
		want.EnableReplica = wantD.EnableReplica
	case 5:
		want.ReplicaPort = wantD.ReplicaPort
	case 6:
		want.MasterAddress = wantD.MasterAddress
	}
	p := write(b)
	sym.Assert(c.Parse(p) == nil && d.Parse(p) == nil, "a well-formed file is refused")
	same(*c, want)
	same(*d, wantD)
}

// Names that are no options.
//
//verif:harness id=C29.unknown quick=40 thorough=300
//verif:bounds an unknown name of 1..2 arbitrary letters or the name of an option with one more letter, set to a number, a text, a switch, a list or a date, or an option's name inside a section; alone or before an option: nothing else changes
func Unknown() {
	c := arbitrary()
	want := *c
	file := ""
	name := sym.String("name", 1+sym.Choice("len", 2))
	for i := 0; i < len(name); i++ {
		sym.Assume(sym.And(name[i] >= 'a', name[i] <= 'z'))
	}
	if k := sym.Choice("prefix", 8); k < 7 {
		name = names[k] + name
	}
	if sym.Choice("known", 2) == 1 {
		file = line(sym.Choice("option", 7), "v", 0, &want) + "\n"
	}
	if k := sym.Choice("section", 8); k < 7 {
		file += "[" + name + "]\n" + names[k] + " = 1\n"
	} else {
		file += name + " = " + []string{"1", "\"x\"", "true", "[1, 2]", "1979-05-27", "1.5"}[sym.Choice("value", 6)] + "\n"
	}
	sym.Assert(c.Parse(write(file)) == nil, "a file with an unknown name is refused")
	same(*c, want)
}

// Values of the wrong type.
//
//verif:harness id=C29.types quick=40 thorough=300
//verif:bounds every option set to a value of every other type (text, number, float, switch, list, table, date), alone or behind another option
func Types() {
	c := common.NewConfig()
	var want common.Config
	o := sym.Choice("option", 7)
	kind := sym.Choice("type", 7)
	right := 0
	switch o {
	case 2, 5:
		right = 1
	case 4:
		right = 2
	}
	if kind == right {
		return
	}
	s := sym.String("x", 1)
	d := s[0]
	sym.Assume(sym.And(d >= '1', d <= '9'))
	v := []string{"\"" + s + "\"", s, "true", s + ".5", "[" + s + "]", "{a = " + s + "}", "1979-05-1" + s}[kind]
	file := ""
	if other := sym.Choice("other", 8); other < 7 && other != o {
		file = line(other, "v", 0, &want) + "\n"
	}
	sym.Assert(c.Parse(write(file+names[o]+" = "+v+"\n")) != nil, "a value of the wrong type is not reported")
}

// What may stand behind a number option.
//
//verif:harness id=C29.number quick=60 thorough=400
//verif:bounds an option set to every text of 0..2 (quick) / 0..3 (thorough) arbitrary bytes of one line, or a digit or sign and two / three ASCII bytes, followed by another option: decimal numbers with optional sign and single underscores and 0x, 0o, 0b numbers are read exactly (numbers with leading zeros are left open), everything else is reported
//verif:reach number malformed
func Number() {
	c := common.NewConfig()
	s := ""
	if n := sym.Choice("len", 4+sym.Tier()); n < 3+sym.Tier() {
		s = sym.String("s", n)
	} else {
		s = sym.String("s", n)
		for i := 0; i < n; i++ {
			sym.Assume(s[i] < 0x80)
		}
		sym.Assume(sym.Or(sym.And(s[0] >= '0', s[0] <= '9'), s[0] == '-', s[0] == '+'))
	}
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] != '\n', s[i] != '\r'))
	}
	err := c.Parse(write("port = " + s + "\nlog_level = \"x\"\n"))
	v, ok, open := numeral(s)
	if open {
		return
	}
	if !ok {
		sym.Reach("malformed")
		sym.Assert(err != nil, "a malformed value is not reported")
		return
	}
	sym.Reach("number")
	sym.Assert(err == nil, "a well-formed file is refused")
	sym.Assert(c.Port == v && c.LogLevel == "x", "a number is read wrongly")
}

// numeral decides what a value text says by the rules of TOML; open means that it is not decided here.
func numeral(s string) (v int, ok, open bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			s = s[:i]
			break
		}
	}
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\t') {
		s = s[1:]
	}
	for len(s) > 0 && (s[len(s)-1] == ' ' || s[len(s)-1] == '\t') {
		s = s[:len(s)-1]
	}
	if s == "" {
		return 0, false, false
	}
	neg := s[0] == '-'
	signed := neg || s[0] == '+'
	if signed {
		s = s[1:]
	}
	base := 10
	if !signed && len(s) > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'o' || s[1] == 'b') {
		switch s[1] {
		case 'x':
			base = 16
		case 'o':
			base = 8
		default:
			base = 2
		}
		s = s[2:]
	} else if len(s) > 1 && s[0] == '0' && (s[1] >= '0' && s[1] <= '9' || s[1] == '_') {
		return 0, false, true
	}
	digit := false
	for i := 0; i < len(s); i++ {
		b := s[i]
		d := 99
		switch {
		case b >= '0' && b <= '9':
			d = int(b - '0')
		case b >= 'a' && b <= 'f':
			d = int(b-'a') + 10
		case b >= 'A' && b <= 'F':
			d = int(b-'A') + 10
		case b == '_' && digit && i+1 < len(s):
			digit = false
			continue
		}
		if d >= base {
			return 0, false, false
		}
		digit = true
		v = v*base + d
	}
	if !digit {
		return 0, false, false
	}
	if neg {
		v = -v
	}
	return v, true, false
}

// Files that cannot be read, and files without any sense.
//
//verif:harness id=C29.any quick=60 thorough=400
//verif:bounds every file of 0..2 (quick) / 0..4 (thorough) arbitrary bytes (too short to name an option), a missing file, an option named twice, or a well-formed option followed by 1..2 / 1..4 arbitrary bytes (two: ASCII in the quick tier) on a line of their own which hold no equals sign, no comment and no bracket and are not blank: no crash, a malformed file is reported and changes nothing
//verif:reach accepted refused missing twice junk
func Any() {
	c := arbitrary()
	want := *c
	switch sym.Choice("what", 4) {
	case 0:
		s := sym.String("s", sym.Choice("len", 3+2*sym.Tier()))
		if c.Parse(write(s)) == nil {
			sym.Reach("accepted")
		} else {
			sym.Reach("refused")
		}
	case 1:
		sym.Reach("missing")
		sym.Assert(c.Parse(sym.TempDir()+"/none.toml") != nil, "a missing file is not reported")
	case 2:
		sym.Reach("twice")
		o := sym.Choice("option", 7)
		var x common.Config
		a, b := line(o, "a", 0, &x), line(o, "b", 0, &x)
		sym.Assert(c.Parse(write(a+"\n"+b+"\n")) != nil, "an option named twice is not reported")
	case 3:
		sym.Reach("junk")
		var x common.Config
		s := sym.String("junk", 1+sym.Choice("len", 2+2*sym.Tier()))
		blank := true
		for i := 0; i < len(s); i++ {
			b := s[i]
			sym.Assume(sym.And(b != '=', b != '#', b != '[', b != '\n', b != '\r'))
			if len(s) > 1 && sym.Tier() == 0 {
				sym.Assume(b < 0x80)
			}
			blank = sym.And(blank, sym.Or(b == ' ', b == '\t'))
		}
		sym.Assume(!blank)
		sym.Assert(c.Parse(write("port = 1\n"+s+"\n"+line(0, "v", 0, &x)+"\n")) != nil, "a line without sense is not reported")
	}
	same(*c, want)
}

var _ = lib.Itoa
