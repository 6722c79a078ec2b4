import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
ed('dh/sidh/sidh.go',('''
	ssSz := pub.Params.SharedSecretSize
	common.BytesToFp2(&pub.affine3Pt[0], input[0:ssSz], pub.Params.Bytelen)
	common.BytesToFp2(&pub.affine3Pt[1], input[ssSz:2*ssSz], pub.Params.Bytelen)
	common.BytesToFp2(&pub.affine3Pt[2], input[2*ssSz:3*ssSz], pub.Params.Bytelen)
	switch pub.Params.ID {
	case Fp434:
		p434.ToMontgomery(&pub.affine3Pt[0], &pub.affine3Pt[0])
		p434.ToMontgomery(&pub.affine3Pt[1], &pub.affine3Pt[1])
		p434.ToMontgomery(&pub.affine3Pt[2], &pub.affine3Pt[2])
	case Fp503:
		p503.ToMontgomery(&pub.affine3Pt[0], &pub.affine3Pt[0])
		p503.ToMontgomery(&pub.affine3Pt[1], &pub.affine3Pt[1])
		p503.ToMontgomery(&pub.affine3Pt[2], &pub.affine3Pt[2])
	case Fp751:
		p751.ToMontgomery(&pub.affine3Pt[0], &pub.affine3Pt[0])
		p751.ToMontgomery(&pub.affine3Pt[1], &pub.affine3Pt[1])
		p751.ToMontgomery(&pub.affine3Pt[2], &pub.affine3Pt[2])
	default:
		panic("Unsupported key")
	}
	return nil
''','''
	ssSz := pub.Params.SharedSecretSize
	for i := range pub.affine3Pt {
		pt := &pub.affine3Pt[i]
		common.BytesToFp2(pt, input[i*ssSz:(i+1)*ssSz], pub.Params.Bytelen)
		switch pub.Params.ID {
		case Fp434:
			p434.ToMontgomery(pt, pt)
		case Fp503:
			p503.ToMontgomery(pt, pt)
		case Fp751:
			p751.ToMontgomery(pt, pt)
		default:
			panic("Unsupported key")
		}
	}
	return nil
'''),('''
	prv.Scalar[len(prv.Scalar)-1] &= (1 << (dp.SecretBitLen % 8)) - 1
	// Make''','''
	top := len(prv.Scalar) - 1
	prv.Scalar[top] &= byte(1<<(dp.SecretBitLen%8) - 1)
	// Make'''))
ed('dh/sidh/common/utils.go',('''
	for i := 0; i < bytelen; i++ {
		j := i / 8
		k := uint64(i % 8)
		fp2.A[j] |= uint64(input[i]) << (8 * k)
		fp2.B[j] |= uint64(input[i+bytelen]) << (8 * k)
	}
''','''
	for i := bytelen - 1; i >= 0; i-- {
		fp2.A[i/8] = fp2.A[i/8]<<8 | uint64(input[i])
		fp2.B[i/8] = fp2.B[i/8]<<8 | uint64(input[i+bytelen])
	}
'''))
