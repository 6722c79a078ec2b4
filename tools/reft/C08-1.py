import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('utils/cpuid_amd64.go',('''	max, _, _, _ := cpuid(0, 0)
	if max < 7 {
		return
	}

	_, _, ecx, _ := cpuid(1, 0)
	X86.HasAES = bitn(ecx, 25)

	_, ebx, _, _ := cpuid(7, 0)
	X86.HasBMI2 = bitn(ebx, 8)
	X86.HasADX = bitn(ebx, 19)
	X86.HasRDSEED = bitn(ebx, 18)
''','''	if leaves, _, _, _ := cpuid(0, 0); leaves >= 7 {
		detect(&X86)
	}
'''),('''	return (bits>>n)&1 == 1
''','''	return bits&(1<<n) != 0
'''),('''func init() {''','''func detect(f *x86) {
	_, ebx, _, _ := cpuid(7, 0)
	*f = x86{HasBMI2: bitn(ebx, 8), HasADX: bitn(ebx, 19), HasRDSEED: bitn(ebx, 18)}
	_, _, ecx, _ := cpuid(1, 0)
	f.HasAES = bitn(ecx, 25)
}

func init() {'''))
