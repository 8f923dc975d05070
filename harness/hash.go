package harness

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
)

var skipType = map[string]bool{
	"vrt.RWMutex": true, "vrt.Mutex": true, "crypto.CryptoConfig": true, "http.Client": true, "time.Time": true,
}
var skipField = map[string]bool{
	"Timestamp": true, "Timerlist": true, "Total_traffic_sent": true, "Total_traffic_received": true, "Converge_time": true,
	"Converge_time_init": true, "Gossiper_log": true, "Client": true, "StorageDirectory": true, "StorageFile_CRV": true, "StorageFile": true,
}

// DeepHash hashes the observable state of an entity context.
func DeepHash(vs ...any) string {
	h := sha256.New()
	for _, v := range vs {
		deep(h, reflect.ValueOf(v), 0)
	}
	return hex.EncodeToString(h.Sum(nil)[:12])
}

func deep(w io.Writer, v reflect.Value, d int) {
	if d > 24 || !v.IsValid() {
		fmt.Fprint(w, "nil;")
		return
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			fmt.Fprint(w, "nil;")
			return
		}
		if skipType[strings.TrimPrefix(t.String(), "*")] {
			return
		}
		deep(w, v.Elem(), d+1)
	case reflect.Struct:
		if skipType[t.String()] {
			return
		}
		fmt.Fprintf(w, "{%s:", t.Name())
		for i := 0; i < v.NumField(); i++ {
			if skipField[t.Field(i).Name] {
				continue
			}
			fmt.Fprintf(w, "%s=", t.Field(i).Name)
			deep(w, v.Field(i), d+1)
		}
		fmt.Fprint(w, "}")
	case reflect.Map:
		var parts []string
		it := v.MapRange()
		for it.Next() {
			var sb strings.Builder
			deep(&sb, it.Key(), d+1)
			sb.WriteString("->")
			deep(&sb, it.Value(), d+1)
			parts = append(parts, sb.String())
		}
		sort.Strings(parts)
		fmt.Fprintf(w, "map%d[%s]", len(parts), strings.Join(parts, ","))
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(w, "%x;", v.Bytes())
			return
		}
		if t.Elem().Kind() == reflect.Uint64 && v.Len() > 64 {
			hh := sha256.New()
			for i := 0; i < v.Len(); i++ {
				if u := v.Index(i).Uint(); u != 0 {
					fmt.Fprintf(hh, "%d:%x,", i, u)
				}
			}
			fmt.Fprintf(w, "u64[%d]%x;", v.Len(), hh.Sum(nil)[:8])
			return
		}
		fallthrough
	case reflect.Array:
		fmt.Fprintf(w, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			deep(w, v.Index(i), d+1)
		}
		fmt.Fprint(w, "]")
	case reflect.String:
		fmt.Fprintf(w, "%q;", v.String())
	case reflect.Bool:
		fmt.Fprintf(w, "%v;", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(w, "%d;", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(w, "%d;", v.Uint())
	case reflect.Float64, reflect.Float32:
		fmt.Fprintf(w, "%v;", v.Float())
	}
}
