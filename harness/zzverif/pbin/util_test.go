package pbin

import "unicode"

func latin1Table() *unicode.RangeTable {
	return &unicode.RangeTable{R16: []unicode.Range16{{Lo: 0, Hi: 255, Stride: 1}}, LatinOffset: 1}
}
