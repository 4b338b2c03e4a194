package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"reflect"
	"time"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"github.com/shopspring/decimal"
)

// diff compares what the application got with what the terminal sent; "" is
// equal.  Empty and nil lists are the same; times and decimals are compared by
// value; extension items by identifier and value; parameters by content.
// Packet readers are not consumed here.
func diff(got, want any) string {
	switch w := want.(type) {
	case *rawEnt:
		r, ok := got.(*rawEnt)
		if !ok || !bytes.Equal(r.data, w.data) {
			return "application-defined body changed"
		}
		return ""
	case valEnt:
		r, ok := got.(valEnt)
		if !ok || !bytes.Equal(r.d.data, w.d.data) {
			return "application-defined body changed"
		}
		return ""
	case *ownEnt:
		r, ok := got.(*ownEnt)
		if !ok || r.id != w.id || !bytes.Equal(r.data, w.data) {
			return "body decoded by the application changed"
		}
		return ""
	}
	return diffv("", reflect.ValueOf(got), reflect.ValueOf(want))
}

var (
	tTime  = reflect.TypeOf(time.Time{})
	tDec   = reflect.TypeOf(decimal.Decimal{})
	tBig   = reflect.TypeOf(big.Int{})
	tParam = reflect.TypeOf(protocol.Param{})

	tStatus  = reflect.TypeOf(protocol.T808_0x0200_Status(0))
	tArea    = reflect.TypeOf(protocol.AreaAttribute(0))
	tSection = reflect.TypeOf(protocol.T808_0x8606_SectionAttribute(0))
)

// paramValues compares what a parameter is read as with its bytes.
func paramValues(a *protocol.Param, y []byte) string {
	b, err := a.GetByte()
	if (err == nil) != (len(y) >= 1) || err == nil && b != y[0] {
		return fmt.Sprintf("parameter %x is read as byte %d (%v)", y, b, err != nil)
	}
	w, err := a.GetUint16()
	if (err == nil) != (len(y) >= 2) || err == nil && w != binary.BigEndian.Uint16(y) {
		return fmt.Sprintf("parameter %x is read as word %d (%v)", y, w, err != nil)
	}
	d, err := a.GetUint32()
	if (err == nil) != (len(y) >= 4) || err == nil && d != binary.BigEndian.Uint32(y) {
		return fmt.Sprintf("parameter %x is read as double word %d (%v)", y, d, err != nil)
	}
	ascii := true
	for _, c := range y {
		ascii = ascii && c < 0x80
	}
	if s, err := a.GetString(); ascii && (err != nil || s != string(y)) {
		return fmt.Sprintf("parameter %x is read as text %q (%v)", y, s, err != nil)
	}
	return ""
}

func diffv(path string, g, w reflect.Value) string {
	if g.IsValid() != w.IsValid() {
		return fmt.Sprintf("%s: one side missing", path)
	}
	if !g.IsValid() {
		return ""
	}
	if g.Type() != w.Type() {
		return fmt.Sprintf("%s: type %s instead of %s", path, g.Type(), w.Type())
	}
	switch g.Type() {
	case tTime:
		a, b := g.Interface().(time.Time), w.Interface().(time.Time)
		if !a.Equal(b) {
			return fmt.Sprintf("%s: %v instead of %v", path, a, b)
		}
		return ""
	case tDec:
		a, b := g.Interface().(decimal.Decimal), w.Interface().(decimal.Decimal)
		if !a.Equal(b) {
			return fmt.Sprintf("%s: %v instead of %v", path, a, b)
		}
		return ""
	case tBig:
		a, b := g.Addr().Interface().(*big.Int), w.Addr().Interface().(*big.Int)
		if a.Cmp(b) != 0 {
			return fmt.Sprintf("%s: different number", path)
		}
		return ""
	case tParam:
		a, b := g.Addr().Interface().(*protocol.Param), w.Addr().Interface().(*protocol.Param)
		x, _ := a.GetBytes()
		y, _ := b.GetBytes()
		if a.ID() != b.ID() || !bytes.Equal(x, y) {
			return fmt.Sprintf("%s: parameter %x=%x instead of %x=%x", path, a.ID(), x, b.ID(), y)
		}
		if d := paramValues(a, y); d != "" {
			return path + ": " + d
		}
		return ""
	case tStatus:
		v := g.Interface().(protocol.T808_0x0200_Status)
		n := uint32(v)
		if v.GetAccState() != (n&1 != 0) || v.Positioning() != (n&2 != 0) || int(v.GetLatitudeType()) != int(n>>2&1) || int(v.GetLongitudeType()) != int(n>>3&1) {
			return fmt.Sprintf("%s: status %08x is read wrongly", path, n)
		}
	case tArea:
		v := g.Interface().(protocol.AreaAttribute)
		if n := uint16(v); int(v.GetLatitudeType()) != int(n>>6&1) || int(v.GetLongitudeType()) != int(n>>7&1) {
			return fmt.Sprintf("%s: area attribute %04x is read wrongly", path, n)
		}
	case tSection:
		v := g.Interface().(protocol.T808_0x8606_SectionAttribute)
		if n := byte(v); v.HasTimeLimit() != (n&1 != 0) || v.HasSpeedLimit() != (n&2 != 0) || int(v.GetLatitudeType()) != int(n>>2&1) || int(v.GetLongitudeType()) != int(n>>3&1) {
			return fmt.Sprintf("%s: section attribute %02x is read wrongly", path, n)
		}
	}
	switch g.Kind() {
	case reflect.Ptr:
		if g.IsNil() || w.IsNil() {
			if g.IsNil() != w.IsNil() {
				return path + ": nil on one side"
			}
			return ""
		}
		return diffv(path, g.Elem(), w.Elem())
	case reflect.Interface:
		if e, ok := w.Interface().(extra.Entity); ok {
			h, ok := g.Interface().(extra.Entity)
			if !ok || h.ID() != e.ID() {
				return fmt.Sprintf("%s: other extension item", path)
			}
			return diffv(path+".value", reflect.ValueOf(h.Value()), reflect.ValueOf(e.Value()))
		}
		return "" // readers
	case reflect.Struct:
		for i := 0; i < g.NumField(); i++ {
			f := g.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			if d := diffv(path+"."+f.Name, g.Field(i), w.Field(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if g.Len() != w.Len() {
			return fmt.Sprintf("%s: %d items instead of %d", path, g.Len(), w.Len())
		}
		if g.Type().Elem().Kind() == reflect.Uint8 {
			if !bytes.Equal(g.Bytes(), w.Bytes()) {
				return fmt.Sprintf("%s: bytes %x instead of %x", path, g.Bytes(), w.Bytes())
			}
			return ""
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < g.Len(); i++ {
			if d := diffv(fmt.Sprintf("%s[%d]", path, i), g.Index(i), w.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.String:
		if g.String() != w.String() {
			return fmt.Sprintf("%s: %q instead of %q", path, g.String(), w.String())
		}
		return ""
	}
	if !reflect.DeepEqual(g.Interface(), w.Interface()) {
		return fmt.Sprintf("%s: %v instead of %v", path, g.Interface(), w.Interface())
	}
	return ""
}
