// Writes an OPVault directory from a JSON description: go run mkvault.go DIR < spec.json
package main

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

type item struct {
	Uid, Category, Band string
	Trashed             bool
	Created, Updated    int64
	Overview, Details   json.RawMessage
	Pad                 int // extra random bytes in front of the details' plain text
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func rnd(n int) []byte { b := make([]byte, n); _, err := rand.Read(b); must(err); return b }

func cbc(key, iv, data []byte) []byte {
	c, err := aes.NewCipher(key)
	must(err)
	out := make([]byte, len(data))
	cipher.NewCBCEncrypter(c, iv).CryptBlocks(out, data)
	return out
}

func mac(key, data []byte) []byte { h := hmac.New(sha256.New, key); h.Write(data); return h.Sum(nil) }

func opdata(plain, key, mk []byte) string {
	iv := rnd(16)
	body := append(rnd(16-len(plain)%16), plain...)
	out := append([]byte("opdata01"), binary.LittleEndian.AppendUint64(nil, uint64(len(plain)))...)
	out = append(append(out, iv...), cbc(key, iv, body)...)
	return base64.StdEncoding.EncodeToString(append(out, mac(mk, out)...))
}

func main() {
	var spec struct {
		Password   string
		Keys       string // vaults with the same text have the same keys below the password
		Iterations int
		Items      []item
	}
	must(json.NewDecoder(os.Stdin).Decode(&spec))
	if spec.Iterations == 0 {
		spec.Iterations = 100
	}
	dir := filepath.Join(os.Args[1], "default")
	must(os.MkdirAll(dir, 0755))
	salt, mb, ob := rnd(16), rnd(256), rnd(64)
	if spec.Keys != "" {
		for i := range mb {
			mb[i] = spec.Keys[i%len(spec.Keys)] + byte(i)
		}
		for i := range ob {
			ob[i] = spec.Keys[i%len(spec.Keys)] ^ byte(i)
		}
	}
	dk, err := pbkdf2.Key(sha512.New, spec.Password, salt, spec.Iterations, 64)
	must(err)
	prof, err := json.Marshal(map[string]any{"salt": base64.StdEncoding.EncodeToString(salt), "iterations": spec.Iterations,
		"masterKey": opdata(mb, dk[:32], dk[32:]), "overviewKey": opdata(ob, dk[:32], dk[32:]), "uuid": "ABC", "createdAt": 1})
	must(err)
	must(os.WriteFile(filepath.Join(dir, "profile.js"), []byte("var profile="+string(prof)+";"), 0644))
	m, o := sha512.Sum512(mb), sha512.Sum512(ob)
	bands := map[string][]string{}
	for _, it := range spec.Items {
		ik, iv := rnd(64), rnd(16)
		k := append(iv, cbc(m[:32], iv, ik)...)
		k = append(k, mac(m[32:], k)...)
		if len(it.Overview) == 0 {
			it.Overview = json.RawMessage("{}")
		}
		if len(it.Details) == 0 {
			it.Details = json.RawMessage("{}")
		}
		rec := map[string]any{"uuid": it.Uid, "category": it.Category, "created": it.Created, "updated": it.Updated, "tx": 1,
			"o": opdata(it.Overview, o[:32], o[32:]), "d": opdata(it.Details, ik[:32], ik[32:]),
			"k": base64.StdEncoding.EncodeToString(k), "hmac": base64.StdEncoding.EncodeToString(rnd(32))}
		if it.Trashed {
			rec["trashed"] = true
		}
		b, err := json.Marshal(rec)
		must(err)
		if it.Band == "" {
			it.Band = strings.ToUpper(it.Uid[:1])
		}
		u, _ := json.Marshal(it.Uid)
		bands[it.Band] = append(bands[it.Band], string(u)+":"+string(b))
	}
	for b, recs := range bands {
		must(os.WriteFile(filepath.Join(dir, "band_"+b+".js"), []byte("ld({"+strings.Join(recs, ",")+"});"), 0644))
	}
}
