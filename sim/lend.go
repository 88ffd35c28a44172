//go:build go1.18

package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
)

// Buffers handed to the drivers go through lend. In the runs of C03 a lent
// buffer has spare capacity with a known content; after the call it must be
// as it was, and then the caller reuses it for something else.

var lending bool

type loan struct {
	what  string
	now   func() string
	then  string
	reuse func()
}

var loans []loan

func lend(b []byte) []byte {
	if b == nil {
		return nil
	}
	if !lending {
		return append([]byte{}, b...)
	}
	full := make([]byte, len(b)+24)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = byte(0xa0 + i%32)
	}
	f := func() string { return hx(full) }
	loans = append(loans, loan{"a byte slice", f, f(), func() {
		for i := range full {
			full[i] = 0xee
		}
	}})
	return full[:len(b)]
}

func lendS[T any](s []T) []T {
	if !lending || s == nil {
		return s
	}
	full := make([]T, len(s)+2)
	copy(full, s)
	f := func() string { return deepText(reflect.ValueOf(full)) }
	loans = append(loans, loan{fmt.Sprintf("a %T", s), f, f(), func() {
		var z T
		for i := range full {
			full[i] = z
		}
	}})
	return full[:len(s)]
}

// lendP is for values handed over by pointer.
func lendP[T any](p *T) *T {
	if !lending || p == nil {
		return p
	}
	f := func() string { return deepText(reflect.ValueOf(p)) }
	loans = append(loans, loan{fmt.Sprintf("a %T", p), f, f(), nil})
	return p
}

func lendInt(v *big.Int) *big.Int {
	c := new(big.Int).Set(v)
	if lending {
		loans = append(loans, loan{"a big.Int", c.String, c.String(), func() { c.SetInt64(7) }})
	}
	return c
}

var lentChanged string

// settle reports what the calls since the last settle changed.
func settle() string {
	if !lending {
		return ""
	}
	returned()
	c := lentChanged
	lentChanged = ""
	return c
}

// returned ends the loans of one library call: whatever was lent is compared
// and then reused by its owner, while the results of the call live on.
func returned() {
	if !lending {
		return
	}
	for _, l := range loans {
		if got := l.now(); got != l.then && lentChanged == "" {
			lentChanged = fmt.Sprintf("%s was %s and is %s", l.what, clip(l.then), clip(got))
		}
	}
	for _, l := range loans {
		if l.reuse != nil {
			l.reuse()
		}
	}
	loans = loans[:0]
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// deepText writes a value with everything it points to.
func deepText(v reflect.Value) string {
	var b strings.Builder
	deep(&b, v, 0)
	return b.String()
}

func deep(b *strings.Builder, v reflect.Value, d int) {
	if d > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		deep(b, v.Elem(), d+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			deep(b, v.Field(i), d+1)
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%x", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			b.WriteString(" ")
			deep(b, v.Index(i), d+1)
		}
		b.WriteString("]")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b.WriteString(" ")
			deep(b, v.Index(i), d+1)
		}
	case reflect.String:
		b.WriteString(v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Map:
		fmt.Fprintf(b, "map%d", v.Len())
	case reflect.Float64, reflect.Float32:
		fmt.Fprint(b, v.Float())
	}
}

// keySeam stands between a signer's key store and the drivers (C16).
var keySeam func([]byte) []byte

func lendKey(b []byte) []byte {
	if keySeam != nil {
		return keySeam(b)
	}
	return lend(b)
}
