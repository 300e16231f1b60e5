// Package wx contains the description of the types of the corpus with many attributes, generated by tools/wide.py.
package wx

import (
	"io"

	v1 "verifgen/api/clustersmgmt/v1"
)

// Object is an object and its builder.
type Object struct {
	Build func() (interface{}, error)
	Copy  func(o interface{})
	Empty func() bool
	Set   []func(v int)
}

// Type describes a type.
type Type struct {
	Name      string
	Count     int
	New       func() *Object
	Get       []func(o interface{}) (int, bool)
	Plain     []func(o interface{}) int
	Empty     func(o interface{}) bool
	Marshal   func(o interface{}, w io.Writer) error
	Unmarshal func(s interface{}) (interface{}, error)
}

// Types is the list of types.
var Types = []*Type{
	{
		Name: "WideTwentyNine", Count: 29,
		New: func() *Object {
			b := v1.NewWideTwentyNine()
			return &Object{
				Build: func() (interface{}, error) { return b.Build() },
				Copy:  func(o interface{}) { b.Copy(o.(*v1.WideTwentyNine)) },
				Empty: func() bool { return b.Empty() },
				Set: []func(v int){
					func(v int) { b.A00(v) },
					func(v int) { b.A01(v) },
					func(v int) { b.A02(v) },
					func(v int) { b.A03(v) },
					func(v int) { b.A04(v) },
					func(v int) { b.A05(v) },
					func(v int) { b.A06(v) },
					func(v int) { b.A07(v) },
					func(v int) { b.A08(v) },
					func(v int) { b.A09(v) },
					func(v int) { b.A10(v) },
					func(v int) { b.A11(v) },
					func(v int) { b.A12(v) },
					func(v int) { b.A13(v) },
					func(v int) { b.A14(v) },
					func(v int) { b.A15(v) },
					func(v int) { b.A16(v) },
					func(v int) { b.A17(v) },
					func(v int) { b.A18(v) },
					func(v int) { b.A19(v) },
					func(v int) { b.A20(v) },
					func(v int) { b.A21(v) },
					func(v int) { b.A22(v) },
					func(v int) { b.A23(v) },
					func(v int) { b.A24(v) },
					func(v int) { b.A25(v) },
					func(v int) { b.A26(v) },
					func(v int) { b.A27(v) },
					func(v int) { b.A28(v) },
				},
			}
		},
		Get: []func(o interface{}) (int, bool){
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA00() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA01() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA02() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA03() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA04() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA05() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA06() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA07() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA08() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA09() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA10() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA11() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA12() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA13() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA14() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA15() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA16() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA17() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA18() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA19() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA20() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA21() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA22() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA23() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA24() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA25() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA26() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA27() },
			func(o interface{}) (int, bool) { return o.(*v1.WideTwentyNine).GetA28() },
		},
		Plain: []func(o interface{}) int{
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A00() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A01() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A02() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A03() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A04() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A05() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A06() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A07() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A08() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A09() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A10() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A11() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A12() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A13() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A14() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A15() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A16() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A17() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A18() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A19() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A20() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A21() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A22() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A23() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A24() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A25() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A26() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A27() },
			func(o interface{}) int { return o.(*v1.WideTwentyNine).A28() },
		},
		Empty:     func(o interface{}) bool { return o.(*v1.WideTwentyNine).Empty() },
		Marshal:   func(o interface{}, w io.Writer) error { return v1.MarshalWideTwentyNine(o.(*v1.WideTwentyNine), w) },
		Unmarshal: func(s interface{}) (interface{}, error) { return v1.UnmarshalWideTwentyNine(s) },
	},
	{
		Name: "WideThirty", Count: 30,
		New: func() *Object {
			b := v1.NewWideThirty()
			return &Object{
				Build: func() (interface{}, error) { return b.Build() },
				Copy:  func(o interface{}) { b.Copy(o.(*v1.WideThirty)) },
				Empty: func() bool { return b.Empty() },
				Set: []func(v int){
					func(v int) { b.A00(v) },
					func(v int) { b.A01(v) },
					func(v int) { b.A02(v) },
					func(v int) { b.A03(v) },
					func(v int) { b.A04(v) },
					func(v int) { b.A05(v) },
					func(v int) { b.A06(v) },
					func(v int) { b.A07(v) },
					func(v int) { b.A08(v) },
					func(v int) { b.A09(v) },
					func(v int) { b.A10(v) },
					func(v int) { b.A11(v) },
					func(v int) { b.A12(v) },
					func(v int) { b.A13(v) },
					func(v int) { b.A14(v) },
					func(v int) { b.A15(v) },
					func(v int) { b.A16(v) },
					func(v int) { b.A17(v) },
					func(v int) { b.A18(v) },
					func(v int) { b.A19(v) },
					func(v int) { b.A20(v) },
					func(v int) { b.A21(v) },
					func(v int) { b.A22(v) },
					func(v int) { b.A23(v) },
					func(v int) { b.A24(v) },
					func(v int) { b.A25(v) },
					func(v int) { b.A26(v) },
					func(v int) { b.A27(v) },
					func(v int) { b.A28(v) },
					func(v int) { b.A29(v) },
				},
			}
		},
		Get: []func(o interface{}) (int, bool){
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA00() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA01() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA02() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA03() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA04() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA05() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA06() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA07() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA08() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA09() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA10() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA11() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA12() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA13() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA14() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA15() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA16() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA17() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA18() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA19() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA20() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA21() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA22() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA23() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA24() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA25() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA26() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA27() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA28() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirty).GetA29() },
		},
		Plain: []func(o interface{}) int{
			func(o interface{}) int { return o.(*v1.WideThirty).A00() },
			func(o interface{}) int { return o.(*v1.WideThirty).A01() },
			func(o interface{}) int { return o.(*v1.WideThirty).A02() },
			func(o interface{}) int { return o.(*v1.WideThirty).A03() },
			func(o interface{}) int { return o.(*v1.WideThirty).A04() },
			func(o interface{}) int { return o.(*v1.WideThirty).A05() },
			func(o interface{}) int { return o.(*v1.WideThirty).A06() },
			func(o interface{}) int { return o.(*v1.WideThirty).A07() },
			func(o interface{}) int { return o.(*v1.WideThirty).A08() },
			func(o interface{}) int { return o.(*v1.WideThirty).A09() },
			func(o interface{}) int { return o.(*v1.WideThirty).A10() },
			func(o interface{}) int { return o.(*v1.WideThirty).A11() },
			func(o interface{}) int { return o.(*v1.WideThirty).A12() },
			func(o interface{}) int { return o.(*v1.WideThirty).A13() },
			func(o interface{}) int { return o.(*v1.WideThirty).A14() },
			func(o interface{}) int { return o.(*v1.WideThirty).A15() },
			func(o interface{}) int { return o.(*v1.WideThirty).A16() },
			func(o interface{}) int { return o.(*v1.WideThirty).A17() },
			func(o interface{}) int { return o.(*v1.WideThirty).A18() },
			func(o interface{}) int { return o.(*v1.WideThirty).A19() },
			func(o interface{}) int { return o.(*v1.WideThirty).A20() },
			func(o interface{}) int { return o.(*v1.WideThirty).A21() },
			func(o interface{}) int { return o.(*v1.WideThirty).A22() },
			func(o interface{}) int { return o.(*v1.WideThirty).A23() },
			func(o interface{}) int { return o.(*v1.WideThirty).A24() },
			func(o interface{}) int { return o.(*v1.WideThirty).A25() },
			func(o interface{}) int { return o.(*v1.WideThirty).A26() },
			func(o interface{}) int { return o.(*v1.WideThirty).A27() },
			func(o interface{}) int { return o.(*v1.WideThirty).A28() },
			func(o interface{}) int { return o.(*v1.WideThirty).A29() },
		},
		Empty:     func(o interface{}) bool { return o.(*v1.WideThirty).Empty() },
		Marshal:   func(o interface{}, w io.Writer) error { return v1.MarshalWideThirty(o.(*v1.WideThirty), w) },
		Unmarshal: func(s interface{}) (interface{}, error) { return v1.UnmarshalWideThirty(s) },
	},
	{
		Name: "WideSixtyOne", Count: 61,
		New: func() *Object {
			b := v1.NewWideSixtyOne()
			return &Object{
				Build: func() (interface{}, error) { return b.Build() },
				Copy:  func(o interface{}) { b.Copy(o.(*v1.WideSixtyOne)) },
				Empty: func() bool { return b.Empty() },
				Set: []func(v int){
					func(v int) { b.A00(v) },
					func(v int) { b.A01(v) },
					func(v int) { b.A02(v) },
					func(v int) { b.A03(v) },
					func(v int) { b.A04(v) },
					func(v int) { b.A05(v) },
					func(v int) { b.A06(v) },
					func(v int) { b.A07(v) },
					func(v int) { b.A08(v) },
					func(v int) { b.A09(v) },
					func(v int) { b.A10(v) },
					func(v int) { b.A11(v) },
					func(v int) { b.A12(v) },
					func(v int) { b.A13(v) },
					func(v int) { b.A14(v) },
					func(v int) { b.A15(v) },
					func(v int) { b.A16(v) },
					func(v int) { b.A17(v) },
					func(v int) { b.A18(v) },
					func(v int) { b.A19(v) },
					func(v int) { b.A20(v) },
					func(v int) { b.A21(v) },
					func(v int) { b.A22(v) },
					func(v int) { b.A23(v) },
					func(v int) { b.A24(v) },
					func(v int) { b.A25(v) },
					func(v int) { b.A26(v) },
					func(v int) { b.A27(v) },
					func(v int) { b.A28(v) },
					func(v int) { b.A29(v) },
					func(v int) { b.A30(v) },
					func(v int) { b.A31(v) },
					func(v int) { b.A32(v) },
					func(v int) { b.A33(v) },
					func(v int) { b.A34(v) },
					func(v int) { b.A35(v) },
					func(v int) { b.A36(v) },
					func(v int) { b.A37(v) },
					func(v int) { b.A38(v) },
					func(v int) { b.A39(v) },
					func(v int) { b.A40(v) },
					func(v int) { b.A41(v) },
					func(v int) { b.A42(v) },
					func(v int) { b.A43(v) },
					func(v int) { b.A44(v) },
					func(v int) { b.A45(v) },
					func(v int) { b.A46(v) },
					func(v int) { b.A47(v) },
					func(v int) { b.A48(v) },
					func(v int) { b.A49(v) },
					func(v int) { b.A50(v) },
					func(v int) { b.A51(v) },
					func(v int) { b.A52(v) },
					func(v int) { b.A53(v) },
					func(v int) { b.A54(v) },
					func(v int) { b.A55(v) },
					func(v int) { b.A56(v) },
					func(v int) { b.A57(v) },
					func(v int) { b.A58(v) },
					func(v int) { b.A59(v) },
					func(v int) { b.A60(v) },
				},
			}
		},
		Get: []func(o interface{}) (int, bool){
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA00() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA01() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA02() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA03() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA04() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA05() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA06() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA07() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA08() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA09() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA10() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA11() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA12() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA13() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA14() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA15() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA16() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA17() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA18() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA19() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA20() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA21() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA22() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA23() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA24() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA25() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA26() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA27() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA28() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA29() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA30() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA31() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA32() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA33() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA34() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA35() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA36() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA37() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA38() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA39() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA40() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA41() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA42() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA43() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA44() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA45() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA46() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA47() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA48() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA49() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA50() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA51() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA52() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA53() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA54() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA55() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA56() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA57() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA58() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA59() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyOne).GetA60() },
		},
		Plain: []func(o interface{}) int{
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A00() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A01() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A02() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A03() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A04() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A05() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A06() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A07() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A08() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A09() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A10() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A11() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A12() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A13() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A14() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A15() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A16() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A17() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A18() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A19() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A20() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A21() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A22() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A23() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A24() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A25() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A26() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A27() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A28() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A29() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A30() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A31() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A32() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A33() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A34() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A35() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A36() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A37() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A38() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A39() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A40() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A41() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A42() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A43() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A44() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A45() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A46() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A47() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A48() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A49() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A50() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A51() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A52() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A53() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A54() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A55() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A56() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A57() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A58() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A59() },
			func(o interface{}) int { return o.(*v1.WideSixtyOne).A60() },
		},
		Empty:     func(o interface{}) bool { return o.(*v1.WideSixtyOne).Empty() },
		Marshal:   func(o interface{}, w io.Writer) error { return v1.MarshalWideSixtyOne(o.(*v1.WideSixtyOne), w) },
		Unmarshal: func(s interface{}) (interface{}, error) { return v1.UnmarshalWideSixtyOne(s) },
	},
	{
		Name: "WideThirtyTwo", Count: 32,
		New: func() *Object {
			b := v1.NewWideThirtyTwo()
			return &Object{
				Build: func() (interface{}, error) { return b.Build() },
				Copy:  func(o interface{}) { b.Copy(o.(*v1.WideThirtyTwo)) },
				Empty: func() bool { return b.Empty() },
				Set: []func(v int){
					func(v int) { b.A00(v) },
					func(v int) { b.A01(v) },
					func(v int) { b.A02(v) },
					func(v int) { b.A03(v) },
					func(v int) { b.A04(v) },
					func(v int) { b.A05(v) },
					func(v int) { b.A06(v) },
					func(v int) { b.A07(v) },
					func(v int) { b.A08(v) },
					func(v int) { b.A09(v) },
					func(v int) { b.A10(v) },
					func(v int) { b.A11(v) },
					func(v int) { b.A12(v) },
					func(v int) { b.A13(v) },
					func(v int) { b.A14(v) },
					func(v int) { b.A15(v) },
					func(v int) { b.A16(v) },
					func(v int) { b.A17(v) },
					func(v int) { b.A18(v) },
					func(v int) { b.A19(v) },
					func(v int) { b.A20(v) },
					func(v int) { b.A21(v) },
					func(v int) { b.A22(v) },
					func(v int) { b.A23(v) },
					func(v int) { b.A24(v) },
					func(v int) { b.A25(v) },
					func(v int) { b.A26(v) },
					func(v int) { b.A27(v) },
					func(v int) { b.A28(v) },
					func(v int) { b.A29(v) },
					func(v int) { b.A30(v) },
					func(v int) { b.A31(v) },
				},
			}
		},
		Get: []func(o interface{}) (int, bool){
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA00() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA01() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA02() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA03() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA04() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA05() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA06() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA07() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA08() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA09() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA10() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA11() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA12() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA13() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA14() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA15() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA16() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA17() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA18() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA19() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA20() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA21() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA22() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA23() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA24() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA25() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA26() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA27() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA28() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA29() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA30() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyTwo).GetA31() },
		},
		Plain: []func(o interface{}) int{
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A00() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A01() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A02() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A03() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A04() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A05() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A06() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A07() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A08() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A09() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A10() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A11() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A12() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A13() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A14() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A15() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A16() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A17() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A18() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A19() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A20() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A21() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A22() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A23() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A24() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A25() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A26() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A27() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A28() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A29() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A30() },
			func(o interface{}) int { return o.(*v1.WideThirtyTwo).A31() },
		},
		Empty:     func(o interface{}) bool { return o.(*v1.WideThirtyTwo).Empty() },
		Marshal:   func(o interface{}, w io.Writer) error { return v1.MarshalWideThirtyTwo(o.(*v1.WideThirtyTwo), w) },
		Unmarshal: func(s interface{}) (interface{}, error) { return v1.UnmarshalWideThirtyTwo(s) },
	},
	{
		Name: "WideThirtyThree", Count: 33,
		New: func() *Object {
			b := v1.NewWideThirtyThree()
			return &Object{
				Build: func() (interface{}, error) { return b.Build() },
				Copy:  func(o interface{}) { b.Copy(o.(*v1.WideThirtyThree)) },
				Empty: func() bool { return b.Empty() },
				Set: []func(v int){
					func(v int) { b.A00(v) },
					func(v int) { b.A01(v) },
					func(v int) { b.A02(v) },
					func(v int) { b.A03(v) },
					func(v int) { b.A04(v) },
					func(v int) { b.A05(v) },
					func(v int) { b.A06(v) },
					func(v int) { b.A07(v) },
					func(v int) { b.A08(v) },
					func(v int) { b.A09(v) },
					func(v int) { b.A10(v) },
					func(v int) { b.A11(v) },
					func(v int) { b.A12(v) },
					func(v int) { b.A13(v) },
					func(v int) { b.A14(v) },
					func(v int) { b.A15(v) },
					func(v int) { b.A16(v) },
					func(v int) { b.A17(v) },
					func(v int) { b.A18(v) },
					func(v int) { b.A19(v) },
					func(v int) { b.A20(v) },
					func(v int) { b.A21(v) },
					func(v int) { b.A22(v) },
					func(v int) { b.A23(v) },
					func(v int) { b.A24(v) },
					func(v int) { b.A25(v) },
					func(v int) { b.A26(v) },
					func(v int) { b.A27(v) },
					func(v int) { b.A28(v) },
					func(v int) { b.A29(v) },
					func(v int) { b.A30(v) },
					func(v int) { b.A31(v) },
					func(v int) { b.A32(v) },
				},
			}
		},
		Get: []func(o interface{}) (int, bool){
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA00() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA01() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA02() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA03() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA04() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA05() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA06() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA07() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA08() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA09() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA10() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA11() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA12() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA13() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA14() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA15() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA16() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA17() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA18() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA19() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA20() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA21() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA22() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA23() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA24() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA25() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA26() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA27() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA28() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA29() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA30() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA31() },
			func(o interface{}) (int, bool) { return o.(*v1.WideThirtyThree).GetA32() },
		},
		Plain: []func(o interface{}) int{
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A00() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A01() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A02() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A03() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A04() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A05() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A06() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A07() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A08() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A09() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A10() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A11() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A12() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A13() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A14() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A15() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A16() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A17() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A18() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A19() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A20() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A21() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A22() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A23() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A24() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A25() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A26() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A27() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A28() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A29() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A30() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A31() },
			func(o interface{}) int { return o.(*v1.WideThirtyThree).A32() },
		},
		Empty:     func(o interface{}) bool { return o.(*v1.WideThirtyThree).Empty() },
		Marshal:   func(o interface{}, w io.Writer) error { return v1.MarshalWideThirtyThree(o.(*v1.WideThirtyThree), w) },
		Unmarshal: func(s interface{}) (interface{}, error) { return v1.UnmarshalWideThirtyThree(s) },
	},
	{
		Name: "WideSixtyFour", Count: 64,
		New: func() *Object {
			b := v1.NewWideSixtyFour()
			return &Object{
				Build: func() (interface{}, error) { return b.Build() },
				Copy:  func(o interface{}) { b.Copy(o.(*v1.WideSixtyFour)) },
				Empty: func() bool { return b.Empty() },
				Set: []func(v int){
					func(v int) { b.A00(v) },
					func(v int) { b.A01(v) },
					func(v int) { b.A02(v) },
					func(v int) { b.A03(v) },
					func(v int) { b.A04(v) },
					func(v int) { b.A05(v) },
					func(v int) { b.A06(v) },
					func(v int) { b.A07(v) },
					func(v int) { b.A08(v) },
					func(v int) { b.A09(v) },
					func(v int) { b.A10(v) },
					func(v int) { b.A11(v) },
					func(v int) { b.A12(v) },
					func(v int) { b.A13(v) },
					func(v int) { b.A14(v) },
					func(v int) { b.A15(v) },
					func(v int) { b.A16(v) },
					func(v int) { b.A17(v) },
					func(v int) { b.A18(v) },
					func(v int) { b.A19(v) },
					func(v int) { b.A20(v) },
					func(v int) { b.A21(v) },
					func(v int) { b.A22(v) },
					func(v int) { b.A23(v) },
					func(v int) { b.A24(v) },
					func(v int) { b.A25(v) },
					func(v int) { b.A26(v) },
					func(v int) { b.A27(v) },
					func(v int) { b.A28(v) },
					func(v int) { b.A29(v) },
					func(v int) { b.A30(v) },
					func(v int) { b.A31(v) },
					func(v int) { b.A32(v) },
					func(v int) { b.A33(v) },
					func(v int) { b.A34(v) },
					func(v int) { b.A35(v) },
					func(v int) { b.A36(v) },
					func(v int) { b.A37(v) },
					func(v int) { b.A38(v) },
					func(v int) { b.A39(v) },
					func(v int) { b.A40(v) },
					func(v int) { b.A41(v) },
					func(v int) { b.A42(v) },
					func(v int) { b.A43(v) },
					func(v int) { b.A44(v) },
					func(v int) { b.A45(v) },
					func(v int) { b.A46(v) },
					func(v int) { b.A47(v) },
					func(v int) { b.A48(v) },
					func(v int) { b.A49(v) },
					func(v int) { b.A50(v) },
					func(v int) { b.A51(v) },
					func(v int) { b.A52(v) },
					func(v int) { b.A53(v) },
					func(v int) { b.A54(v) },
					func(v int) { b.A55(v) },
					func(v int) { b.A56(v) },
					func(v int) { b.A57(v) },
					func(v int) { b.A58(v) },
					func(v int) { b.A59(v) },
					func(v int) { b.A60(v) },
					func(v int) { b.A61(v) },
					func(v int) { b.A62(v) },
					func(v int) { b.A63(v) },
				},
			}
		},
		Get: []func(o interface{}) (int, bool){
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA00() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA01() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA02() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA03() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA04() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA05() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA06() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA07() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA08() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA09() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA10() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA11() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA12() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA13() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA14() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA15() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA16() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA17() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA18() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA19() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA20() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA21() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA22() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA23() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA24() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA25() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA26() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA27() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA28() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA29() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA30() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA31() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA32() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA33() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA34() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA35() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA36() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA37() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA38() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA39() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA40() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA41() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA42() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA43() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA44() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA45() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA46() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA47() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA48() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA49() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA50() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA51() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA52() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA53() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA54() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA55() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA56() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA57() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA58() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA59() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA60() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA61() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA62() },
			func(o interface{}) (int, bool) { return o.(*v1.WideSixtyFour).GetA63() },
		},
		Plain: []func(o interface{}) int{
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A00() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A01() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A02() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A03() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A04() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A05() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A06() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A07() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A08() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A09() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A10() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A11() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A12() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A13() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A14() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A15() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A16() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A17() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A18() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A19() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A20() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A21() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A22() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A23() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A24() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A25() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A26() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A27() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A28() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A29() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A30() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A31() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A32() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A33() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A34() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A35() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A36() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A37() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A38() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A39() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A40() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A41() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A42() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A43() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A44() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A45() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A46() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A47() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A48() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A49() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A50() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A51() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A52() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A53() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A54() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A55() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A56() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A57() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A58() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A59() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A60() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A61() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A62() },
			func(o interface{}) int { return o.(*v1.WideSixtyFour).A63() },
		},
		Empty:     func(o interface{}) bool { return o.(*v1.WideSixtyFour).Empty() },
		Marshal:   func(o interface{}, w io.Writer) error { return v1.MarshalWideSixtyFour(o.(*v1.WideSixtyFour), w) },
		Unmarshal: func(s interface{}) (interface{}, error) { return v1.UnmarshalWideSixtyFour(s) },
	},
}
