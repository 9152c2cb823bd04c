package main

// Words, texts and license sets that common hash functions confuse.

import (
	"fmt"
	"strings"
)

// twins are words of equal length and equal hash. For most of these functions
// texts that go on alike after them are equal in hash, too. What keeps answers,
// words or sets by such a hash confuses them.
var twins = [][2]string{
	// CRC-32
	{"lukegetehan", "diqozojonix"}, {"dixunivomoc", "mobojonudew"}, {"rejolucurax", "cukehijecap"},
	// CRC-32C
	{"xarasecurec", "mibofuqedej"}, {"fecalikuwof", "letucucimug"}, {"hiceculoter", "rujoyetenat"},
	// CRC-32K
	{"foqazacapiw", "wiximusosey"}, {"joxohukecug", "huloxotelon"}, {"cojabiduwaw", "riloqujadup"},
	// FNV-1 32
	{"wifopejuwar", "rahiriruvux"}, {"hizutahidan", "yehipekirut"}, {"tunofegohey", "fayeyutejez"},
	// FNV-1a 32
	{"vesisuniwot", "nuhiwecifim"}, {"jevocesuwob", "sigayarinoz"}, {"pebaxoyikod", "vuhekebehak"},
	// FNV-1 64, low
	{"sefohuwenos", "licecesinav"}, {"vofulikenid", "qifahavilop"}, {"kekufalubek", "dufegovorop"},
	// FNV-1a 64, low
	{"zegelehusax", "tumumedarih"}, {"divulejovun", "yugujefojon"}, {"buwemiwiyep", "lebudegodeq"},
	// Adler-32
	{"fubisusicop", "kotemefutaw"}, {"liqiwipoxiv", "renolubuyiw"}, {"rusehediwit", "pazolokesat"},
	// h*33+c from 5381
	{"labosejaxok", "yabedavevis"}, {"womekatetuh", "nafehahogeh"}, {"voyaxupudex", "mahajeresum"},
	// h*33^c from 5381
	{"tutalavidix", "getubuzakav"}, {"zuvehivurax", "dozakonoxay"}, {"lidozubobex", "jobodovohih"},
	// h*31+c
	{"mahazezohom", "fixonaharan"}, {"pomaqehigun", "lacopewuyob"}, {"gizocotujuf", "gahorirayuz"},
	// h*31+c from 17
	{"xojawulizup", "tilamolelej"}, {"yuxihubipat", "sudelapajab"}, {"yegayarisuy", "bahetejubiq"},
	// h*65599+c
	{"qemabetuzem", "weqeduyayog"}, {"jugavitutes", "gogalexuyow"}, {"zopijiwojut", "weduweqadeb"},
	// h*16777619+c
	{"giyoyubimuc", "qesopokowuy"}, {"feweqakolag", "tajohesufok"}, {"tuzikuwaraw", "tonuquyufiq"},
	// h*131+c
	{"vecaluburos", "gawuzipoqac"}, {"cufuguhejet", "wasilewicaf"}, {"qunevazimac", "vicobitozab"},
	// h*1000003^c
	{"dolikocazey", "jubikupaniz"}, {"rekezaqiyob", "zacexafifar"}, {"wozizokutas", "gatexuyepoc"},
	// one at a time
	{"renomatawup", "dejecenutam"}, {"fayuzacolub", "rikemumepew"}, {"lavesuyayar", "pacehulexex"},
	// sum
	{"dajiyamewod", "nomenagodeq"}, {"zorobicilah", "pudolofekeh"}, {"vatehakimiz", "gunamelojir"},
	// xor
	{"hisifimerot", "rucavofomob"}, {"yitesihinup", "vamotajaxuw"}, {"hayekukicuq", "hedinisoreb"},
}

func twinOf(w string) string {
	for _, t := range twins {
		switch w {
		case t[0]:
			return t[1]
		case t[1]:
			return t[0]
		}
	}
	return w
}

// collide makes license sets of twins: the second has the twins of the words in
// the first. Related texts are next to each other.
func (c *corpus) collide() []medium {
	m := make([]medium, 2)
	around := strings.Repeat("nothing of it is said in here ", 3+c.r.Intn(20))
	for i, k := range c.r.Perm(len(twins))[:4] {
		x, y := twins[k][0], twins[k][1]
		if c.r.Intn(2) == 0 {
			x, y = y, x
		}
		rest := fmt.Sprintf(" may do that %s always so", c.coinage())
		path := fmt.Sprintf(".org/licenses/%d", i)
		for j, w := range []string{x, y} {
			m[j].spec = append(m[j].spec,
				License{ID: fmt.Sprintf("First-%d", i), Type: 1 + i, LRE: []byte(w + rest + "\n")},
				License{ID: fmt.Sprintf("URL-%d", i), Type: 2, URL: w + path})
		}
		if i%2 == 0 { // both are known
			for j, w := range []string{y, x} {
				m[j].spec = append(m[j].spec, License{ID: fmt.Sprintf("Second-%d", i), Type: 64, LRE: []byte(w + rest + "\n")})
			}
		}
		for _, f := range []string{"%s" + rest, "%s" + rest + "\n" + around, around + "\n%s" + rest + "\n" + around, "%s" + path + "\n", "http://%s" + path + "\n", "https://%s" + path + "/us/\n"} {
			for _, w := range []string{x, y} {
				t := []byte(strings.Replace(f, "%s", w, 1))
				m[0].texts = append(m[0].texts, t)
			}
		}
	}
	m[1].texts = m[0].texts
	return m
}

// collideOld is the same for legacy sets.
func (c *corpus) collideOld() medium {
	var m medium
	around := strings.Repeat("nothing of it is said in here ", 3+c.r.Intn(20))
	for i, k := range c.r.Perm(len(twins))[:4] {
		x, y := twins[k][0], twins[k][1]
		rest := fmt.Sprintf(" may do that %s as often as the others want to have it done here again and again", c.coinage())
		path := fmt.Sprintf(".org/licenses/%d", i)
		m.spec = append(m.spec, License{ID: fmt.Sprintf("First-%d", i), LRE: []byte(x + rest + "\n")}, License{ID: fmt.Sprintf("URL-%d", i), URL: x + path})
		if i%2 == 0 {
			m.spec = append(m.spec, License{ID: fmt.Sprintf("MIT-%d", i), LRE: []byte(y + rest + "\n")})
		}
		for _, f := range []string{"%s" + rest, "%s" + rest + "\n" + around, around + "\n%s" + rest + "\n" + around, "http://%s" + path + " and so on\n"} {
			for _, w := range []string{x, y} {
				m.texts = append(m.texts, []byte(strings.Replace(f, "%s", w, 1)))
			}
		}
	}
	return m
}
