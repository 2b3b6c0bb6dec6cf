package main

// Decoding of a parsed TOML tree into a struct. The lexer, the parser and the tree of go-toml are interpreted from their
// source; only (*Tree).Unmarshal, which works by reflection, is done here, following v1.8.0's valueFromTree and
// valueFromToml for fields of string, bool, integer and float types.

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

const tomlPkg = "github.com/pelletier/go-toml"

// rtype gives the reflect.Type of a type: an interface holding a *models.RType, one per type.
func (m *Machine) rtype(t types.Type) Value {
	mp := m.L.pkgs[zzPkg+"/models"]
	if mp == nil {
		panic(unsupported{"reflect.TypeOf without models"})
	}
	t = m.L.canonical(t)
	rt := m.L.canonical(types.NewPointer(mp.Type("RType").Type()))
	if m.rtypes == nil {
		m.rtypes = map[types.Type]*Value{}
	}
	s := m.rtypes[t]
	if s == nil {
		elem := Value{K: KPtr}
		name := types.TypeString(t, func(p *types.Package) string { return p.Name() })
		if p, ok := t.(*types.Pointer); ok {
			elem = m.rtype(p.Elem()).P.(*Iface).v
		}
		s = &Value{K: KAgg, P: &Agg{f: []Value{mkStr(name), elem}}}
		m.rtypes[t] = s
	}
	return Value{K: KIface, P: &Iface{rt, Value{K: KPtr, P: s}}}
}

func tomlIntrinsics() map[string]intrinsicFn {
	return map[string]intrinsicFn{
		"time.initLocal": func(m *Machine, fi *fnInfo, a []Value) Value { return Value{} },
		"reflect.TypeOf": func(m *Machine, fi *fnInfo, a []Value) Value {
			i, ok := a[0].P.(*Iface)
			if !ok || i == nil {
				return nilIface
			}
			return m.rtype(i.t)
		},
		"(*" + tomlPkg + ".Tree).Unmarshal": tomlUnmarshal,
	}
}

func tomlUnmarshal(m *Machine, fi *fnInfo, a []Value) Value {
	tree := a[0]
	if tree.P == nil {
		m.throw("invalid memory address or nil pointer dereference")
	}
	iv, ok := a[1].P.(*Iface)
	if !ok || iv == nil {
		return m.errValue("nil cannot be unmarshaled from TOML")
	}
	pt, ok := iv.t.Underlying().(*types.Pointer)
	if !ok {
		return m.errValue("only a pointer to struct or map can be unmarshaled from TOML")
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		panic(unsupported{"toml: unmarshalling into " + pt.Elem().String()})
	}
	if iv.v.P == nil {
		return m.errValue("nil pointer cannot be unmarshaled from TOML")
	}
	slot, ok := iv.v.P.(*Value)
	if !ok {
		panic(unsupported{"toml: unmarshalling into a symbolic pointer"})
	}
	get := m.L.prog.LookupMethod(types.NewPointer(m.L.pkgs[tomlPkg].Type("Tree").Type()), m.L.pkgs[tomlPkg].Pkg, "GetPath")
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i))
		parts := strings.Split(tag.Get("toml"), ",")
		name := f.Name()
		if parts[0] == "-" && len(parts) == 1 || !f.Exported() {
			continue
		}
		if parts[0] != "" {
			name = strings.Trim(parts[0], " ")
		}
		if f.Anonymous() {
			panic(unsupported{"toml: embedded field"})
		}
		b, basic := f.Type().Underlying().(*types.Basic)
		found := false
		for _, k := range []string{name, strings.ToLower(name), strings.ToTitle(name), strings.ToLower(name[:1]) + name[1:]} {
			v := m.call(get, []Value{tree, {K: KSlice, P: &SliceV{f: []Value{mkStr(k)}}}}, nil)
			vi, ok := v.P.(*Iface)
			if !ok || vi == nil {
				continue
			}
			if !basic {
				panic(unsupported{"toml: field of type " + f.Type().String()})
			}
			nv, why := m.tomlConvert(vi, b)
			if why != "" {
				return m.errValue("(1, 1): " + why)
			}
			m.store(&m.agg(slot, pt.Elem()).f[i], nv)
			found = true
			break
		}
		if d := tag.Get("default"); !found && d != "" {
			if !basic {
				panic(unsupported{"toml: default of a field of type " + f.Type().String()})
			}
			switch {
			case b.Info()&types.IsString != 0:
				m.store(&m.agg(slot, pt.Elem()).f[i], mkStr(d))
			case b.Kind() == types.Bool:
				x, err := strconv.ParseBool(d)
				if err != nil {
					return m.errValue(err.Error())
				}
				m.store(&m.agg(slot, pt.Elem()).f[i], mkBool(x))
			case b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0:
				w := int(m.L.sizes.Sizeof(b)) * 8
				x, err := strconv.ParseInt(d, 10, w)
				if err != nil {
					return m.errValue(err.Error())
				}
				m.store(&m.agg(slot, pt.Elem()).f[i], mkInt(uint64(x), uint8(w)))
			default:
				panic(unsupported{"toml: default of a field of type " + f.Type().String()})
			}
		}
		if !found && !basic {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				panic(unsupported{"toml: nested struct"})
			}
		}
	}
	return nilIface
}

// tomlConvert converts a value out of the tree for a field of a basic type.
func (m *Machine) tomlConvert(v *Iface, b *types.Basic) (Value, string) {
	no := func() (Value, string) { return Value{}, fmt.Sprintf("Can't convert a %s to %s", v.t, b) }
	from, ok := v.t.Underlying().(*types.Basic)
	if !ok {
		return no() // trees, lists, dates
	}
	switch {
	case b.Info()&types.IsString != 0:
		if from.Info()&types.IsString == 0 {
			return no()
		}
		return v.v, ""
	case b.Kind() == types.Bool:
		if from.Kind() != types.Bool {
			return no()
		}
		return v.v, ""
	case b.Info()&types.IsInteger != 0:
		if from.Kind() != types.Int64 {
			return no()
		}
		w := int(m.L.sizes.Sizeof(b)) * 8
		uns := b.Info()&types.IsUnsigned != 0
		x := m.ts.Const(v.v.N, 64)
		if t, ok := v.v.P.(*Term); ok {
			x = t
		}
		if uns && m.path.Branch(m.ts.Cmp(BSlt, x, m.ts.Const(0, 64))) {
			return Value{}, "the value is negative"
		}
		if w == 64 {
			return v.v, ""
		}
		nx := m.ts.Extract(x, 0, uint8(w))
		back := m.ts.Sext(nx, 64)
		if uns {
			back = m.ts.Zext(nx, 64)
		}
		if !m.path.Branch(m.ts.Eq(back, x)) {
			return Value{}, "the value would overflow"
		}
		return mkTerm(nx), ""
	}
	panic(unsupported{"toml: field of type " + b.String()})
}
