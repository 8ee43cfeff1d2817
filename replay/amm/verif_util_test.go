package amm_test

// Bounded replay harness (overlaid into x/dex/amm): runs the real code on
// seeded random and boundary inputs and on models reported by the verifier,
// and checks each property directly with big.Int arithmetic.

import (
	"bufio"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
)

type vh struct {
	r       *rand.Rand
	t       *testing.T
	evals   int
	seen    map[string]bool
	fails   map[string]int
	samples int
	until   time.Time
	max     int
}

func newVH(t *testing.T, rule string, quickN int, quickSecs int) *vh {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	v := &vh{r: rand.New(rand.NewSource(seed*7919 + 17)), t: t, seen: map[string]bool{}, fails: map[string]int{}}
	v.max = quickN
	v.until = time.Now().Add(time.Duration(quickSecs) * time.Second)
	if os.Getenv("VERIF_TIER") == "thorough" {
		v.max *= 20
		v.until = time.Now().Add(time.Duration(quickSecs*10) * time.Second)
	}
	fmt.Println("RULE " + rule)
	return v
}

func (v *vh) more() bool {
	if v.evals >= v.max || time.Now().After(v.until) {
		return false
	}
	v.evals++
	return true
}

// try runs one case; a panic in the code under test is a failing input.
func (v *vh) try(desc func() string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			v.fail("panic", fmt.Sprintf("%v on %s", r, desc()))
		}
	}()
	f()
}

func (v *vh) hit(s string) {
	if !v.seen[s] {
		v.seen[s] = true
		if v.samples < 3 {
			v.samples++
			fmt.Println("SAMPLE " + strings.ReplaceAll(s, "\n", " "))
		}
	}
}

func (v *vh) fail(key, desc string) {
	v.fails[key]++
	if v.fails[key] <= 3 {
		fmt.Printf("FAILING-INPUT %s|%s\n", key, strings.ReplaceAll(desc, "\n", " "))
	}
	if v.fails[key] == 1 {
		v.t.Fail()
	}
}

func (v *vh) done() {
	fmt.Printf("EVALS %d %d\n", v.evals, len(v.seen))
}

// seeds returns the models given by the verifier for units with this prefix.
func (v *vh) seeds() []map[string]*big.Int {
	var out []map[string]*big.Int
	f, err := os.Open(os.Getenv("VERIF_SEEDS"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		m := map[string]*big.Int{}
		for _, w := range strings.Fields(sc.Text()) {
			k := strings.Index(w, "=")
			if k < 0 {
				continue
			}
			if x, ok := new(big.Int).SetString(w[k+1:], 10); ok {
				m[w[:k]] = x
			}
		}
		out = append(out, m)
	}
	return out
}

var bigP = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)

func bi(x int64) *big.Int            { return big.NewInt(x) }
func mul(a, b *big.Int) *big.Int     { return new(big.Int).Mul(a, b) }
func add(a, b *big.Int) *big.Int     { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int     { return new(big.Int).Sub(a, b) }
func fdiv(a, b *big.Int) *big.Int    { return new(big.Int).Div(a, b) }
func cdiv(a, b *big.Int) *big.Int    { return new(big.Int).Neg(new(big.Int).Div(new(big.Int).Neg(a), b)) }
func p10(n int) *big.Int             { return new(big.Int).Exp(bi(10), bi(int64(n)), nil) }
func toInt(a *big.Int) math.Int      { return math.NewIntFromBigInt(a) }
func toDec(a *big.Int) math.LegacyDec { return math.LegacyNewDecFromBigIntWithPrec(new(big.Int).Set(a), 18) }
func imin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

// big number with a random number of digits, often near a boundary
func (v *vh) num(maxDigits int) *big.Int {
	switch v.r.Intn(10) {
	case 0:
		return bi(int64(v.r.Intn(12)))
	case 1:
		return add(p10(v.r.Intn(maxDigits)), bi(int64(v.r.Intn(3)-1)))
	case 2:
		d := v.r.Intn(maxDigits) + 1
		k := v.r.Intn(d) + 1
		return mul(bi(int64(v.r.Intn(999)+1)), p10(d-k))
	default:
		d := v.r.Intn(maxDigits) + 1
		return new(big.Int).Rand(v.r, p10(d))
	}
}

func (v *vh) pos(maxDigits int) *big.Int {
	for {
		x := v.num(maxDigits)
		if x.Sign() > 0 {
			return x
		}
	}
}

// price between 10^-14 and 10^20, scaled
func (v *vh) price() *big.Int {
	lo, hi := 4, 38
	if v.r.Intn(3) > 0 {
		lo, hi = 14, 23
	}
	d := lo + v.r.Intn(hi-lo)
	x := new(big.Int).Rand(v.r, mul(bi(9), p10(d)))
	x.Add(x, p10(d))
	switch v.r.Intn(4) {
	case 0:
		x = p10(d)
	case 1: // a tick at precision 3 or 4
		return amm.PriceToDownTick(toDec(x), 3+v.r.Intn(2)).BigInt()
	}
	return x
}

func randOrder(v *vh, dir amm.OrderDirection) *amm.BaseOrder {
	p := v.price()
	amt := v.pos(22)
	need := amt
	if dir == amm.Buy {
		need = cdiv(mul(p, amt), bigP)
	}
	offer := need
	if v.r.Intn(3) == 0 {
		offer = add(need, v.num(10))
	}
	return amm.NewBaseOrder(dir, toDec(p), toInt(amt), toInt(offer))
}

func ostr(o amm.Order) string {
	return fmt.Sprintf("%s price=%s amt=%s open=%s offer=%s paid=%s recv=%s batch=%d", o.GetDirection(), o.GetPrice(), o.GetAmount(), o.GetOpenAmount(), o.GetOfferCoinAmount(), o.GetPaidOfferCoinAmount(), o.GetReceivedDemandCoinAmount(), o.GetBatchId())
}

// vorder is a BaseOrder with a batch id, the way user orders have one.
type vorder struct {
	*amm.BaseOrder
	batch uint64
	id    int
}

func (o *vorder) GetBatchId() uint64 { return o.batch }
func (o *vorder) HasPriority(other amm.Order) bool {
	if !o.GetAmount().Equal(other.GetAmount()) {
		return o.GetAmount().GT(other.GetAmount())
	}
	if x, ok := other.(*vorder); ok {
		return o.id < x.id
	}
	return true
}
