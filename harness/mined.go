package main

// Found by searching, see DESIGN.md: names that hash to equal prefix bytes,
// and names whose hash has zero bytes at the skipped positions.
var minedGroups = [][]string{
	{"t/1033347", "t/1170899"},
	{"t/379781", "t/1302923"},
	{"t/609586", "t/1032568"},
	{"t/528171", "t/1399149"},
	{"t/3674435", "t/5733251", "t/9801789"},
	{"t/1083852", "t/1823347"},
	{"t/167875", "t/1532950"},
	{"t/1087382", "t/1106400"},
	{"t/654356", "t/1186950"},
	{"t/1015440", "t/1298379"},
	{"t/877809", "t/1503443"},
	{"t/653759", "t/1602603"},
	{"t/793877", "t/1089154"},
	{"t/1369380", "t/1451180"},
	{"t/1780788", "t/1968259"},
	{"t/20046", "t/540759"},
	{"t/376967", "t/780785"},
	{"t/1281480", "t/1461139"},
	{"t/1194889", "t/1639933"},
	{"t/1397110", "t/1571703"},
	{"t/325801", "t/808040"},
	{"t/990146", "t/1053521"},
	{"t/741911", "t/1996811"},
	{"t/1485261", "t/1835052"},
	{"t/455106", "t/462550"},
	{"t/648097", "t/1465011"},
	{"t/84568", "t/742035"},
	{"t/1082766", "t/1645189"},
	{"t/649740", "t/1535034"},
	{"t/242555", "t/1576419"},
	{"t/292332", "t/852144"},
	{"t/1171493", "t/1423309"},
	{"t/31944", "t/1907339"},
	{"t/141214", "t/1924297"},
	{"t/997038", "t/1040586"},
	{"t/94370", "t/1452975"},
	{"t/98610", "t/324620"},
	{"t/35802", "t/205300"},
	{"t/2724984", "t/4931495", "t/7747968"},
	{"t/4204342", "t/6144487", "t/7744198"},
	{"t/378469", "t/1849133"},
	{"t/142961", "t/1330251"},
	{"t/547825", "t/934344"},
	{"t/4528000", "t/7396741", "t/9763671"},
	{"t/2395931", "t/8756960", "t/10046804"},
	{"t/381157", "t/1582845", "t/10681513"},
	{"t/5678945", "t/8701383", "t/10267653"},
	{"t/3609496", "t/3919651", "t/8058532"},
	{"t/153804", "t/4225319", "t/10155233"},
	{"t/4695751", "t/9171717", "t/10918214"},
	{"t/3339754", "t/3450043", "t/8663683"},
	{"t/5918897", "t/7967249", "t/9457260"},
	{"t/2270495", "t/2665875", "t/2776613"},
	{"t/2045169", "t/4715754", "t/11012612"},
	{"t/986775", "t/2863920", "t/7137741"},
	{"t/6078397", "t/6448725", "t/7117437"},
	{"t/349745", "t/1480100", "t/8169950"},
	{"t/4706985", "t/7822072", "t/11533711"},
	{"t/6791073", "t/6972707", "t/9883701"},
}

var minedZeros = []string{
	// 0 and 1 zero bytes
	"t/1066", "t/1159", "t/1168", "t/1182",
	// 0 and 2 zero bytes
	"t/50546", "t/109440", "t/229197", "t/382867",
	// 0 and 3 zero bytes
	"t/9539514",
	// 1 and 0 zero bytes
	"t/53", "t/157", "t/207", "t/401",
	// 1 and 1 zero bytes
	"t/97995", "t/145823", "t/279444", "t/332530",
	// 2 and 0 zero bytes
	"t/219", "t/9239", "t/138021", "t/270710",
	// 2 and 1 zero bytes
	"t/4167639", "t/6696836",
}

// Equal prefix bytes, and two equal disambiguation bytes.
var minedNear = [][]string{
	{"t/45331576", "t/22258949"},
	{"t/42080631", "t/14506188"},
	{"t/26437844", "t/38295809"},
	{"t/23811517", "t/15350759"},
	{"t/4324819", "t/51523182"},
	{"t/10046577", "t/5983611"},
	{"t/29622866", "t/36063749"},
	{"t/49596930", "t/18638888"},
	{"t/36759507", "t/27318513"},
	{"t/5454345", "t/57517516"},
	{"t/30033207", "t/29470893"},
	{"t/16195253", "t/62521391"},
	{"t/23020727", "t/58666794"},
	{"t/4292293", "t/5352053"},
	{"t/44667064", "t/21740601"},
	{"t/65798568", "t/63574839"},
	{"t/38265479", "t/9535311"},
}

// Equal disambiguation bytes, and three equal prefix bytes.
var minedDisamb = [][]string{
	{"t/53443171", "t/17020468"},
	{"t/26044976", "t/29905269"},
	{"t/44139146", "t/22373320"},
	{"t/38198553", "t/43196764"},
	{"t/65609892", "t/2493513"},
	{"t/31539836", "t/35848169"},
	{"t/59915662", "t/45234215"},
	{"t/11211803", "t/5652583"},
	{"t/40463846", "t/65336843"},
	{"t/52092936", "t/49135726"},
	{"t/19987406", "t/62256694"},
	{"t/36951732", "t/5317602"},
	{"t/58848094", "t/64160844"},
	{"t/54251172", "t/22556402"},
	{"t/42416217", "t/2287804"},
	{"t/363434", "t/11647736"},
	{"t/64869490", "t/65526311"},
}

func init() { minedGroups = append(minedGroups, minedNear...) }
