package main

// An independent implementation of the OPVault format: it writes vaults and says what a reader must show.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/md5"
	"crypto/pbkdf2"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unicode/utf16"
)

// catNames maps category codes to the names the program documents.
var catNames = map[string]string{
	"001": "Login", "002": "Credit Card", "003": "Secure Note", "004": "Identity", "005": "Password", "099": "Tombstone",
	"100": "Software License", "101": "Bank Account", "102": "Database", "103": "Driver License", "104": "Outdoor License",
	"105": "Membership", "106": "Passport", "107": "Rewards", "108": "SSN", "109": "Router", "110": "Server", "111": "Email",
}

var catCodes = func() []string {
	var k []string
	for c := range catNames {
		k = append(k, c)
	}
	sort.Strings(k)
	return k
}()

type omap []kv // ordered JSON object

type kv struct {
	K string
	V any
}

func (o omap) MarshalJSON() ([]byte, error) {
	var b bytes.Buffer
	b.WriteByte('{')
	for i, e := range o {
		if i > 0 {
			b.WriteByte(',')
		}
		k, err := json.Marshal(e.K)
		if err != nil {
			return nil, err
		}
		b.Write(k)
		b.WriteByte(':')
		v, err := json.Marshal(e.V)
		if err != nil {
			return nil, err
		}
		b.Write(v)
	}
	b.WriteByte('}')
	return b.Bytes(), nil
}

func (o omap) get(k string) any {
	for _, e := range o {
		if e.K == k {
			return e.V
		}
	}
	return nil
}

type EField struct{ Name, Value string }

type ESection struct {
	Title  string
	Fields []EField
}

// VItem is one stored item, with its plaintext and what the program must show for it.
type VItem struct {
	UID      string
	Cat      string
	Known    bool
	Trashed  bool
	TrashKey int // 0 absent (not trashed), 1 present
	Created  int64
	Updated  int64
	Overview omap
	Details  omap
	// expectation
	Title    string
	Url      string
	Notes    string
	Sections []ESection
	// ciphertext, as written
	O, D, K string
	Raw     omap
	Secrets []string // every secret string of the details
	Loc     *time.Location
}

type Vault struct {
	Password   string
	Salt       []byte
	Iter       int
	masterBase []byte
	overBase   []byte
	MasterKey  string
	OverKey    string
	mk, mm     []byte
	ok, om     []byte
	Items      []*VItem
	Pretty     bool
	Bands      map[string][]*VItem
	EmptyBand  bool
	LowBands   bool // band files named in lower case
	Name       any  // the profile's own name
}

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func aesCBC(key, iv, data []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(out, data)
	return out
}

func cbcOpen(key, iv, data []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	cipher.NewCBCDecrypter(blk, iv).CryptBlocks(out, data)
	return out
}

func mac(key, data []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(data)
	return h.Sum(nil)
}

// opdata encrypts with the format's front padding (1..16 bytes, or more whole blocks never).
func opdata(r *rand.Rand, plain, key, mkey []byte) []byte {
	pad := 16 - len(plain)%16
	var b bytes.Buffer
	b.WriteString("opdata01")
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], uint64(len(plain)))
	b.Write(l[:])
	iv := rbytes(r, 16)
	b.Write(iv)
	b.Write(aesCBC(key, iv, append(rbytes(r, pad), plain...)))
	b.Write(mac(mkey, b.Bytes()))
	return b.Bytes()
}

func b64(b []byte) string   { return base64.StdEncoding.EncodeToString(b) }
func unb64(s string) []byte { b, _ := base64.StdEncoding.DecodeString(s); return b }

func derive(password string, salt []byte, iter int) ([]byte, []byte) {
	k, err := pbkdf2.Key(sha512.New, password, salt, iter, 64)
	if err != nil {
		panic(err)
	}
	return k[:32], k[32:]
}

func split512(base []byte) ([]byte, []byte) {
	h := sha512.Sum512(base)
	return append([]byte{}, h[:32]...), append([]byte{}, h[32:]...)
}

// newVault creates key material for password.
func newVault(r *rand.Rand, password string, iter int) *Vault {
	v := &Vault{Password: password, Salt: rbytes(r, 16), Iter: iter}
	v.masterBase, v.overBase = rbytes(r, 256), rbytes(r, 64)
	v.mk, v.mm = split512(v.masterBase)
	v.ok, v.om = split512(v.overBase)
	dk, dm := derive(password, v.Salt, iter)
	v.MasterKey = b64(opdata(r, v.masterBase, dk, dm))
	v.OverKey = b64(opdata(r, v.overBase, dk, dm))
	return v
}

func (v *Vault) seal(r *rand.Rand, it *VItem) {
	op, err := json.Marshal(it.Overview)
	if err != nil {
		panic(err)
	}
	dp, err := json.Marshal(it.Details)
	if err != nil {
		panic(err)
	}
	op, dp = respell(r, op), respell(r, dp)
	ik, im := rbytes(r, 32), rbytes(r, 32)
	iv := rbytes(r, 16)
	kb := append(append([]byte{}, iv...), aesCBC(v.mk, iv, append(append([]byte{}, ik...), im...))...)
	kb = append(kb, mac(v.mm, kb)...)
	it.K = b64(kb)
	it.O = b64(opdata(r, op, v.ok, v.om))
	it.D = b64(opdata(r, dp, ik, im))
	v.raw(it)
}

// respell writes the same JSON text the way another program might.
func respell(r *rand.Rand, b []byte) []byte {
	switch r.Intn(6) {
	case 0: // nothing but ASCII
		var o bytes.Buffer
		for _, x := range string(b) {
			switch {
			case x > 0xffff:
				a, z := utf16.EncodeRune(x)
				fmt.Fprintf(&o, "\\u%04x\\u%04x", a, z)
			case x > 126:
				fmt.Fprintf(&o, "\\u%04X", x)
			case x == '/':
				o.WriteString("\\/")
			default:
				o.WriteRune(x)
			}
		}
		return o.Bytes()
	case 1: // no escapes but the needed ones
		return []byte(strings.NewReplacer("\\\\", "\\\\", "\\u003c", "<", "\\u003e", ">", "\\u0026", "&").Replace(string(b)))
	case 2:
		var o bytes.Buffer
		if json.Indent(&o, b, " ", "\t") == nil {
			return append(o.Bytes(), '\n')
		}
	}
	return b
}

// raw (re)builds the stored JSON object of an item from its ciphertexts.
func (v *Vault) raw(it *VItem) {
	o := omap{{"uuid", it.UID}, {"category", it.Cat}, {"o", it.O}, {"updated", it.Updated}}
	if it.TrashKey == 1 || it.Trashed {
		o = append(o, kv{"trashed", it.Trashed})
	}
	o = append(o, kv{"k", it.K}, kv{"d", it.D}, kv{"created", it.Created}, kv{"tx", it.Updated + 1 + int64(it.UID[4])*977})
	if it.UID[1] < '4' {
		o = append(o, kv{"fave", 1000 + int(it.UID[2])})
	}
	if it.UID[3] < '4' {
		o = append(o, kv{"folder", "A15E0B1A2B3C4D5E6F708192A3B4C5D6"})
	}
	keys := []string{}
	for _, e := range o {
		keys = append(keys, e.K)
	}
	sort.Strings(keys)
	var m strings.Builder
	for _, k := range keys {
		x := o.get(k)
		if b, ok := x.(bool); ok {
			x = 0
			if b {
				x = 1
			}
		}
		fmt.Fprintf(&m, "%s%v", k, x)
	}
	o = append(o, kv{"hmac", b64(mac(v.om, []byte(m.String())))})
	it.Raw = o
}

// write stores the vault under path (the directory that gets 'default').
func (v *Vault) write(r *rand.Rand, path string) {
	d := filepath.Join(path, "default")
	if err := os.MkdirAll(d, 0755); err != nil {
		infra("vault: %v", err)
	}
	prof := omap{{"lastUpdatedBy", "vp"}, {"updatedAt", 1370323483}, {"profileName", "default"}, {"salt", b64(v.Salt)},
		{"passwordHint", "hint; });"}, {"masterKey", v.MasterKey}, {"iterations", v.Iter}, {"uuid", "2B894A18997C4638BACC55F2D56A4890"},
		{"overviewKey", v.OverKey}, {"createdAt", 1373753414}}
	if v.Name != nil {
		prof[2].V = v.Name
	}
	pj, _ := json.Marshal(prof)
	mustWrite(filepath.Join(d, "profile.js"), []byte("var profile="+string(pj)+";"))
	bands := map[string][]*VItem{}
	for _, it := range v.Items {
		b := strings.ToUpper(it.UID[:1])
		if !strings.Contains("0123456789ABCDEF", b) {
			b = "0"
		}
		bands[b] = append(bands[b], it)
	}
	v.Bands = bands
	// remove bands of an earlier write
	old, _ := os.ReadDir(d)
	for _, e := range old {
		if strings.HasPrefix(e.Name(), "band_") {
			os.Remove(filepath.Join(d, e.Name()))
		}
	}
	for b, items := range bands {
		o := omap{}
		for _, it := range items {
			o = append(o, kv{it.UID, it.Raw})
		}
		var text []byte
		if v.Pretty {
			text, _ = json.MarshalIndent(o, "", "  ")
		} else {
			text, _ = json.Marshal(o)
		}
		if v.LowBands {
			b = strings.ToLower(b)
		}
		mustWrite(filepath.Join(d, "band_"+b+".js"), []byte("ld("+string(text)+");"))
	}
	if v.EmptyBand {
		for _, b := range []string{"0", "7", "F"} {
			if bands[b] == nil {
				mustWrite(filepath.Join(d, "band_"+b+".js"), []byte("ld({});"))
			}
		}
	}
	// files a real vault also has and a reader must ignore
	mustWrite(filepath.Join(d, "folders.js"), []byte("loadFolders({});"))
	mustWrite(filepath.Join(d, "F2DB5DA3FCA64372A751E0E85C67A538_AFBDA49A5F684179A78161E40CA2AAD3.attachment"), []byte("OPCLDAT\x01xxxx"))
}

func mustWrite(p string, b []byte) {
	if err := os.WriteFile(p, b, 0644); err != nil {
		infra("write: %v", err)
	}
}

// ---- generation ----

func hexUID(r *rand.Rand) string {
	const h = "0123456789ABCDEF"
	b := make([]byte, 32)
	for i := range b {
		b[i] = h[r.Intn(16)]
	}
	return string(b)
}

var words = []string{"alpha", "Bravo", "bank", "MAIL", "Ünïcode", "naïve", "пароль", "Ω-level", "server", "Home", "x", "login", "Ärger", "café", "42", "o'Neil", "long-hyphenated", "tab.dot", "δοκιμή", "e\u0301clair"}

func phrase(r *rand.Rand, n int) string {
	p := make([]string, n)
	for i := range p {
		p[i] = words[r.Intn(len(words))]
	}
	return strings.Join(p, " ")
}

var secretSeq = func() func(r *rand.Rand) string {
	return func(r *rand.Rand) string {
		const al = "abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789"
		b := make([]byte, 10+r.Intn(8))
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
		return "S3c" + string(b)
	}
}()

// secretVal makes a value that is unique and therefore traceable.
func secretVal(r *rand.Rand, o genOpts) string {
	s := secretSeq(r)
	if o.plainSecrets {
		return s
	}
	switch r.Intn(16) {
	case 7:
		s = []string{"https://", "http://", "ftp://", "www."}[r.Intn(4)] + s + ".example.org/x?y=1"
	case 8:
		s = "me." + s + "@mail.example.org"
	case 9:
		s = []string{"+48 600 100 200 ", "4111 1111 1111 1111/", "127.0.0.1:", "-----BEGIN KEY-----", "otpauth://totp/x?secret=", "$", "#", "{\"a\":1}"}[r.Intn(8)] + s
	case 0:
		s += " with spaces " + phrase(r, 2)
	case 1:
		s += "\\\"quoted\"</x>&%d%s"
	case 2:
		s += "é∑ß漢"
		if o.narrow {
			s = strings.ReplaceAll(s, "漢", "ж")
		}
	case 3:
		s = s + strings.Repeat("Z", r.Intn(300))
	case 4:
		s = "%v" + s + ": {}"
	case 5:
		s = "  " + s + "  "
		if o.narrow {
			s = strings.TrimSpace(s)
		}
	case 6:
		s = "***" + s + "****"
	case 11, 12:
		if o.screen {
			s = []string{"漢字パスワード", "密码", "비밀", "🔑🔒", "ＡＢ"}[r.Intn(5)] + s + []string{"日本", "", "z漢", "\x1b[7m", "\ttab"}[r.Intn(5)]
		}
	case 10:
		if !o.narrow {
			s += "🔑𝕏 " + words[r.Intn(len(words))]
		}
	}
	return s
}

type genOpts struct {
	screen       bool // with narrow: also text that a screen does not show one to one
	narrow       bool // only characters a terminal cell shows one to one; single-line values
	plainSecrets bool
	uniqueTitles bool
	noUnknown    bool
	items        int
	trashRate    int // percent
	cats         []string
	allTrashed   bool
	noNotes      bool
	longLists    bool
	dupTitles    bool // some titles are used by several items, or empty
	noonDates    bool // dates that are the same day everywhere
}

var fieldNames = []string{"username", "password", "email", "pin code", "user name", "reg-code", "q", "Логин", "server's name", "x_y", "eMail", "PIN Code", "userID", "URL"}
var kinds = []string{"string", "concealed", "phone", "URL", "menu", "cctype", "gender", "email", "date", "monthYear", "address", "reference", "totp", "file-x"}

// ordinary values that a careless reader could take for something else
var oddValues = []string{"0", "false", "true", "null", "<nil>", "-1", "00123", "1e5", "12345678901234567890", "1.50", "[]", "{}", "\\n", "a: b", "x", "**********", "2020-01-01", "3.14.", "---"}

func titleCase(s string) string { return strings.Title(s) } //nolint:staticcheck // the documented capitalisation

// genItem makes a random well-formed item.
func genItem(r *rand.Rand, o genOpts, idx int) *VItem {
	it := &VItem{UID: hexUID(r), Created: 1300000000 + int64(r.Intn(400000000)), Known: true}
	it.Updated = it.Created + int64(r.Intn(10000000))
	if r.Intn(30) == 0 {
		it.Created = int64(r.Intn(3)) * 2147483647
	}
	cats := o.cats
	if cats == nil {
		cats = catCodes
	}
	it.Cat = cats[r.Intn(len(cats))]
	if !o.noUnknown && r.Intn(20) == 0 {
		it.Cat = []string{"112", "114", "000", "1", "0001", "abc"}[r.Intn(6)]
		it.Known = false
	}
	if o.allTrashed || r.Intn(100) < o.trashRate {
		it.Trashed = true
	}
	it.TrashKey = r.Intn(2)

	// overview
	switch {
	case o.uniqueTitles:
		it.Title = fmt.Sprintf("T%03d %s", idx, phrase(r, 1+r.Intn(2)))
		if r.Intn(4) == 0 {
			it.Title = strings.ToLower(it.Title)
		}
		if r.Intn(4) == 0 {
			it.Title = fmt.Sprintf("%c%03d %s", 'A'+rune(r.Intn(26)), idx, words[r.Intn(len(words))])
		}
		if r.Intn(8) == 0 {
			it.Title += []string{" 100%", " %s %d", " <&> \"q\"", " a\\nb", " {{x}} $1", " (1)", " #*", ": %v"}[r.Intn(8)]
		}
	case r.Intn(12) == 0:
		it.Title = ""
	default:
		it.Title = phrase(r, 1+r.Intn(4))
		if r.Intn(10) == 0 {
			it.Title += " %s 100% \"q\" <&>"
		}
		if !o.narrow && r.Intn(12) == 0 {
			it.Title += " 🏦"
		}
		switch r.Intn(14) {
		case 0:
			it.Title = "  " + it.Title
		case 1:
			it.Title += "  "
		case 2:
			it.Title = strings.Replace(it.Title, " ", "  ", 1) + "  x"
		case 3:
			it.Title += strings.Repeat(" long", 20+r.Intn(60))
		}
	}
	if o.screen && it.Title != "" && r.Intn(3) == 0 {
		it.Title = []string{"two\nrows " + it.Title, it.Title + "\r\nx", "漢字 " + it.Title, "\x1b[31mred " + it.Title, "tab\t" + it.Title, it.Title + "🔑日本語\n\n"}[r.Intn(6)]
	}
	ov := omap{}
	if it.Title != "" || r.Intn(2) == 0 {
		ov = append(ov, kv{"title", it.Title})
	}
	if r.Intn(2) == 0 {
		it.Url = fmt.Sprintf("https://%d.example.com/p?q=%d&x=%%20#f", r.Intn(1000), r.Intn(100000))
		if r.Intn(5) == 0 {
			it.Url += strings.Repeat("/seg", r.Intn(60))
		}
		ov = append(ov, kv{"url", it.Url}, kv{"URLs", []omap{{{"u", it.Url}}}})
	}
	ov = append(ov, kv{"ainfo", phrase(r, 1)}, kv{"ps", r.Intn(100)})
	if r.Intn(3) == 0 {
		ov = append(ov, kv{"tags", []string{"Sample", "t" + phrase(r, 1)}})
	}
	r.Shuffle(len(ov), func(i, j int) { ov[i], ov[j] = ov[j], ov[i] })
	it.Overview = ov

	genDetails(r, o, it)
	return it
}

func genDetails(r *rand.Rand, o genOpts, it *VItem) {
	de := omap{}
	it.Sections, it.Notes, it.Secrets = nil, "", nil
	secret := func() string {
		s := secretVal(r, o)
		it.Secrets = append(it.Secrets, s)
		return s
	}
	value := func() string {
		if r.Intn(14) == 0 {
			return oddValues[r.Intn(len(oddValues))]
		}
		return secret()
	}
	hasFields := it.Cat == "001" || r.Intn(6) == 0
	hasSections := r.Intn(3) != 0
	if hasFields {
		n := r.Intn(5)
		if !o.narrow && r.Intn(40) == 0 {
			n += 10 + r.Intn(60)
		}
		var fs []omap
		var ef []EField
		for i := 0; i < n; i++ {
			name := fieldNames[r.Intn(len(fieldNames))]
			f := omap{{"type", []string{"T", "P", "E", "I", "C"}[r.Intn(5)]}}
			if r.Intn(2) == 0 {
				f = append(f, kv{"designation", []string{"username", "password"}[r.Intn(2)]})
			}
			switch r.Intn(6) {
			case 0: // no name: not shown
				f = append(f, kv{"name", ""}, kv{"value", "hidden" + secretSeq(r)})
			case 1: // no value: not shown
				f = append(f, kv{"name", name}, kv{"value", ""})
			default:
				v := value()
				if len(ef) > 0 && r.Intn(8) == 0 { // the same field again
					name, v = fieldNames[0], ef[len(ef)-1].Value
				}
				f = append(f, kv{"name", name}, kv{"value", v})
				ef = append(ef, EField{titleCase(name), v})
			}
			fs = append(fs, f)
		}
		if fs == nil {
			fs = []omap{}
		}
		de = append(de, kv{"fields", fs})
		if len(ef) > 0 {
			it.Sections = append(it.Sections, ESection{"", ef})
		}
	}
	if hasSections {
		ns := r.Intn(4)
		if o.longLists && r.Intn(3) == 0 {
			ns = 3 + r.Intn(4)
		}
		if !o.narrow && r.Intn(60) == 0 { // far more than usual
			ns = 20 + r.Intn(40)
		}
		secs := []omap{}
		lastTitle, lastLabel := "", ""
		for s := 0; s < ns; s++ {
			sec := omap{}
			es := ESection{}
			if r.Intn(3) != 0 {
				t := phrase(r, 1+r.Intn(2))
				if s > 0 && r.Intn(5) == 0 {
					t = lastTitle
				}
				lastTitle = t
				sec = append(sec, kv{"title", t})
				es.Title = titleCase(t)
			} else if r.Intn(2) == 0 {
				sec = append(sec, kv{"title", ""})
			}
			sec = append(sec, kv{"name", "s" + fmt.Sprint(s)})
			if r.Intn(6) != 0 {
				nf := r.Intn(6)
				if o.longLists {
					nf += r.Intn(8)
				}
				if !o.narrow && r.Intn(100) == 0 {
					nf += 20 + r.Intn(80)
				}
				fs := []omap{}
				for i := 0; i < nf; i++ {
					k := kinds[r.Intn(len(kinds))]
					label := phrase(r, 1+r.Intn(2))
					if r.Intn(3) == 0 {
						label = fieldNames[r.Intn(len(fieldNames))]
					}
					if lastLabel != "" && r.Intn(8) == 0 {
						label = lastLabel
					}
					lastLabel = label
					f := omap{{"k", k}, {"n", "n" + fmt.Sprint(i)}, {"t", label}}
					if r.Intn(7) == 0 { // no value: not shown
						fs = append(fs, f)
						continue
					}
					var val any
					var shown string
					switch k {
					case "date":
						ts := int64(r.Intn(2000000000))
						switch r.Intn(8) {
						case 0:
							ts = -int64(r.Intn(1500000000))
						case 1:
							ts = 0
						case 2:
							ts = int64(r.Intn(100000))
						case 3:
							ts = 4102444800 + int64(r.Intn(1000000))
						case 4:
							ts = 359100000
						}
						if o.noonDates {
							ts += 43200 - (ts%86400+86400)%86400
						}
						val = ts
						shown = time.Unix(ts, 0).UTC().Format("2006-01-02")
					case "monthYear":
						y, m := 1900+r.Intn(200), 1+r.Intn(12)
						val = y*100 + m
						shown = fmt.Sprintf("%04d-%02d", y, m)
					case "address":
						parts := omap{}
						for _, pk := range []string{"city", "country", "state", "street", "zip", "region"} {
							if r.Intn(4) != 0 {
								parts = append(parts, kv{pk, secret()})
								if r.Intn(6) == 0 {
									parts[len(parts)-1].V = ""
								}
							}
						}
						for i := range parts { // surrounding blanks and line breaks are folded by the address format
							parts[i].V = strings.Join(strings.Fields(parts[i].V.(string)), " ")
						}
						sorted := append(omap{}, parts...)
						sort.Slice(sorted, func(a, b int) bool { return sorted[a].K < sorted[b].K })
						for _, p := range sorted {
							shown += "\n  " + p.K + ": " + p.V.(string)
						}
						val = parts
					default:
						v := value()
						if r.Intn(10) == 0 {
							v = ""
						} else if n := len(es.Fields); n > 0 && r.Intn(12) == 0 && !strings.Contains(es.Fields[n-1].Value, "\n") {
							v = es.Fields[n-1].Value // the same value twice
						}
						val, shown = v, v
						if !o.narrow && k == "string" && r.Intn(12) == 0 {
							v = secret() + "\nline two " + secret()
							val, shown = v, v
						}
					}
					f = append(f, kv{"v", val})
					if r.Intn(4) == 0 {
						f = append(f, kv{"a", omap{{"guarded", "yes"}}})
					}
					r.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
					fs = append(fs, f)
					es.Fields = append(es.Fields, EField{titleCase(label), shown})
				}
				sec = append(sec, kv{"fields", fs})
			}
			secs = append(secs, sec)
			if es.Title != "" || len(es.Fields) > 0 {
				it.Sections = append(it.Sections, es)
			}
		}
		de = append(de, kv{"sections", secs})
	}
	if !o.noNotes && r.Intn(2) == 0 {
		it.Notes = "note " + secret()
		if o.screen {
			switch r.Intn(4) {
			case 0:
				it.Notes += "\r\nline " + secret() + "\r\n\r\nlast " + secret()
			case 1:
				it.Notes += "\r\n"
			case 2:
				it.Notes = "a\tb \x1b[31mred\x1b[0m\u009bx\x07\x7f " + it.Notes
			}
		}
		if !o.narrow && r.Intn(2) == 0 {
			it.Notes += "\n\n" + phrase(r, r.Intn(40)) + "\nEND" + secret()
		}
		if !o.narrow {
			switch r.Intn(10) {
			case 0:
				it.Notes = "\n\n  " + it.Notes + " \n\n"
			case 1:
				it.Notes = strings.ReplaceAll(it.Notes, "\n", "\r\n") + "\r\nlast\r\n"
			case 2:
				it.Notes = "\t" + it.Notes + "\t|\tx\n\t\ty"
			case 3:
				it.Notes += "\n- item\n  - sub   item\n```\nraw <b>&amp;</b>\n```\n\\n \\u0041"
			case 4:
				it.Notes = value()
			case 5:
				if r.Intn(8) == 0 {
					it.Notes += "\n" + strings.Repeat(phrase(r, 8)+" 0123456789\n", 200+r.Intn(3000)) + "THE END " + secret()
				}
			}
		}
		if o.narrow && o.longLists {
			for i := r.Intn(20); i > 0; i-- {
				it.Notes += "\nline " + secret()
			}
		}
		de = append(de, kv{"notesPlain", it.Notes})
	}
	if r.Intn(4) == 0 {
		de = append(de, kv{"passwordHistory", []omap{{{"value", "old" + secretSeq(r)}, {"time", 1325484162}}}})
	}
	if r.Intn(6) == 0 { // vary the ciphertext length freely
		de = append(de, kv{"htmlForm", omap{{"htmlMethod", strings.Repeat("p", r.Intn(40))}}})
	}
	r.Shuffle(len(de), func(i, j int) { de[i], de[j] = de[j], de[i] })
	it.Details = de
}

func (it *VItem) retitle(t string) {
	it.Title = t
	for k := range it.Overview {
		if it.Overview[k].K == "title" {
			it.Overview[k].V = t
			return
		}
	}
	it.Overview = append(it.Overview, kv{"title", t})
}

// genVault makes a random vault.
func genVault(r *rand.Rand, password string, iter int, o genOpts) *Vault {
	v := newVault(r, password, iter)
	v.Pretty = r.Intn(3) == 0
	v.EmptyBand = r.Intn(4) == 0
	v.Name = []any{nil, nil, nil, nil, "Personal", "", "Mój sejf", "1Password", nil, nil}[r.Intn(10)]
	for i := 0; i < o.items; i++ {
		it := genItem(r, o, i)
		if o.dupTitles && r.Intn(3) == 0 {
			t := ""
			if i > 0 && r.Intn(5) > 0 {
				t = v.Items[r.Intn(i)].Title
				if r.Intn(2) == 0 {
					it.Cat = v.Items[i-1].Cat
					it.Known = v.Items[i-1].Known
				}
			}
			it.retitle(t)
		} else if o.dupTitles && r.Intn(12) == 0 {
			it.retitle(it.Title + strings.Repeat(" and so on", 4+r.Intn(30)))
		}
		v.Items = append(v.Items, it)
		v.seal(r, it)
	}
	return v
}

// known returns the items a reader must show.
func (v *Vault) known() []*VItem {
	var out []*VItem
	for _, it := range v.Items {
		if it.Known {
			out = append(out, it)
		}
	}
	return out
}

func (v *Vault) find(uid string) *VItem {
	for _, it := range v.Items {
		if it.UID == uid {
			return it
		}
	}
	return nil
}

// sel is the reference for listings: matching items ordered by category code then title.
func (v *Vault) sel(cat, title string, trashed bool) []*VItem {
	var out []*VItem
	lt := strings.ToLower(title)
	for _, it := range v.known() {
		if it.Trashed == trashed && (cat == "" || it.Cat == cat) && strings.Contains(strings.ToLower(it.Title), lt) {
			out = append(out, it)
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].Cat != out[j].Cat {
			return out[i].Cat < out[j].Cat
		}
		return out[i].Title < out[j].Title
	})
	return out
}

// fmtTime is a point in time as the user's clock shows it.
func (it *VItem) fmtTime(t int64) string {
	l := it.Loc
	if l == nil {
		l = time.UTC
	}
	return time.Unix(t, 0).In(l).Format("2006-01-02 15:04:05")
}

// zone puts the user of the vault into some time zone; the vault's dates must be noon dates.
func (v *Vault) zone(r *rand.Rand) string {
	n := []string{"America/New_York", "Europe/Warsaw", "Asia/Kolkata", "Pacific/Honolulu", "Australia/Sydney", "America/St_Johns"}[r.Intn(6)]
	l, err := time.LoadLocation(n)
	if err != nil {
		return "UTC"
	}
	if _, err := os.Stat("/usr/share/zoneinfo/" + n); err != nil {
		return "UTC"
	}
	for _, it := range v.Items {
		it.Loc = l
	}
	return n
}

// view renders what the item view shows, blank lines and rulers left out. masked = overview.
func (it *VItem) view(masked bool) []string {
	var out []string
	add := func(s string) {
		for _, l := range strings.Split(s, "\n") {
			l = strings.ReplaceAll(l, "\r", "") // the terminal adds and eats these
			if strings.TrimSpace(l) != "" && !isRule(l) {
				out = append(out, strings.TrimRight(l, " "))
			}
		}
	}
	add(catNames[it.Cat])
	add(it.Title)
	add("Updated: " + it.fmtTime(it.Updated))
	add("Created: " + it.fmtTime(it.Created))
	add(fmt.Sprintf("Trashed: %v", it.Trashed))
	if it.Url != "" {
		add("URL: " + it.Url)
	}
	for _, s := range it.Sections {
		add(s.Title)
		for _, f := range s.Fields {
			if masked {
				add(f.Name + ": **********")
			} else {
				add(f.Name + ": " + f.Value)
			}
		}
	}
	if it.Notes != "" {
		add("Notes")
		if masked {
			add("**********")
		} else {
			add(it.Notes)
		}
	}
	return out
}

func md5sum(b []byte) []byte {
	s := md5.Sum(b)
	return s[:]
}
