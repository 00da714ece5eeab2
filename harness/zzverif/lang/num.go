package lang

import "strconv"

func canonNum(s string) string {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return "NaN:" + s
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func NumVal(s string) float64 {
	f, _ := strconv.ParseFloat(s, 64)
	return f
}
