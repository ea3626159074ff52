"""Derive, from first principles, the Moore-Penrose inverse of the covariance
matrix of overlapping 5-permutation counts (operm5 oracle data)."""
import itertools, numpy as np, sys
def kperm(w):
    w=list(w); idx=0
    for i in range(4,0,-1):
        k=0
        for j in range(1,i+1):
            if w[j]>=w[k]: k=j
        idx=(i+1)*idx+k
        w[i],w[k]=w[k],w[i]
    return idx
def main(out):
    tab={p:kperm(p) for p in itertools.permutations(range(5))}
    def pat(x):
        r=sorted(range(5),key=lambda i:x[i]); o=[0]*5
        for a,i in enumerate(r): o[i]=a
        return tab[tuple(o)]
    C=np.eye(120)/120-1/14400.
    for lag in range(1,5):
        n=5+lag; J=np.zeros((120,120)); tot=0
        for p in itertools.permutations(range(n)):
            J[pat(p[:5]),pat(p[lag:lag+5])]+=1; tot+=1
        J/=tot
        D=J-1/14400.
        C+=D+D.T
    P=np.linalg.pinv(C,rcond=1e-9)
    print('rank',np.linalg.matrix_rank(C,tol=1e-9))
    P.astype('<f8').tofile(out)
main(sys.argv[1])
