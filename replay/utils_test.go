//go:build go1.21

package utils

import (
	"fmt"
	"testing"
)

func TestVerifCPU(t *testing.T) {
	max, _, _, _ := cpuid(0, 0)
	var w x86
	if max >= 7 {
		_, _, c1, _ := cpuid(1, 0)
		_, b7, _, _ := cpuid(7, 0)
		w = x86{HasAES: c1>>25&1 == 1, HasBMI2: b7>>8&1 == 1, HasADX: b7>>19&1 == 1, HasRDSEED: b7>>18&1 == 1}
	}
	if w != X86 {
		fmt.Printf("VERIF-FAIL flags %+v, CPUID says %+v\n", X86, w)
		t.Fatal()
	}
	fmt.Println("VERIF-CASES 1")
}
