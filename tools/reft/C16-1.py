import sys; sys.path.insert(0,'/verif/tools/reft'); from lib import ed
for p in ('434','503','751'):
    ed('dh/sidh/internal/p%s/core.go'%p,('''
func traverseTreePublicKeyA(curve *ProjectiveCurveParameters, xR, phiP, phiQ, phiR *ProjectivePoint) {
	var points = make([]ProjectivePoint, 0, 8)
	var indices = make([]int, 0, 8)
	var i, sIdx int
	var phi isogeny4

	cparam := CalcCurveParamsEquiv4(curve)
	strat := params.A.IsogenyStrategy
	stratSz := len(strat)

	for j := 1; j <= stratSz; j++ {
		for i <= stratSz-j {
			points = append(points, *xR)
			indices = append(indices, i)

			k := strat[sIdx]
			sIdx++
			Pow2k(xR, &cparam, 2*k)
			i += int(k)
		}
		cparam = phi.GenerateCurve(xR)

		for k := 0; k < len(points); k++ {
			points[k] = phi.EvaluatePoint(&points[k])
		}
		*phiP = phi.EvaluatePoint(phiP)
		*phiQ = phi.EvaluatePoint(phiQ)
		*phiR = phi.EvaluatePoint(phiR)

		// pop xR from points
		*xR, points = points[len(points)-1], points[:len(points)-1]
		i, indices = int(indices[len(indices)-1]), indices[:len(indices)-1]
	}
}
''','''
func traverseTreePublicKeyA(curve *ProjectiveCurveParameters, xR, phiP, phiQ, phiR *ProjectivePoint) {
	walkA(curve, xR, phiP, phiQ, phiR)
}

func walkA(curve *ProjectiveCurveParameters, xR *ProjectivePoint, extra ...*ProjectivePoint) {
	type node struct {
		pt  ProjectivePoint
		idx int
	}
	var stack []node
	var phi isogeny4

	cparam := CalcCurveParamsEquiv4(curve)
	strat := params.A.IsogenyStrategy
	n, i := len(strat), 0
	next := strat
	for row := n - 1; row >= 0; row-- {
		for i <= row {
			stack = append(stack, node{*xR, i})
			Pow2k(xR, &cparam, 2*next[0])
			i += int(next[0])
			next = next[1:]
		}
		cparam = phi.GenerateCurve(xR)
		for k := range stack {
			stack[k].pt = phi.EvaluatePoint(&stack[k].pt)
		}
		for _, q := range extra {
			*q = phi.EvaluatePoint(q)
		}
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		*xR, i = top.pt, top.idx
	}
}
'''),('''
func traverseTreeSharedKeyA(curve *ProjectiveCurveParameters, xR *ProjectivePoint) {
	var points = make([]ProjectivePoint, 0, 8)
	var indices = make([]int, 0, 8)
	var i, sIdx int
	var phi isogeny4

	cparam := CalcCurveParamsEquiv4(curve)
	strat := params.A.IsogenyStrategy
	stratSz := len(strat)

	for j := 1; j <= stratSz; j++ {
		for i <= stratSz-j {
			points = append(points, *xR)
			indices = append(indices, i)

			k := strat[sIdx]
			sIdx++
			Pow2k(xR, &cparam, 2*k)
			i += int(k)
		}
		cparam = phi.GenerateCurve(xR)

		for k := 0; k < len(points); k++ {
			points[k] = phi.EvaluatePoint(&points[k])
		}

		// pop xR from points
		*xR, points = points[len(points)-1], points[:len(points)-1]
		i, indices = int(indices[len(indices)-1]), indices[:len(indices)-1]
	}
}
''','''
func traverseTreeSharedKeyA(curve *ProjectiveCurveParameters, xR *ProjectivePoint) {
	walkA(curve, xR)
}
'''))
