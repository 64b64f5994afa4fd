import sys, random
import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import ir
R=random.Random(int(sys.argv[1]) if len(sys.argv)>1 else 1)
def rnd(hi):
    k=R.random()
    if k<.3: return R.randrange(0,4)
    if k<.6: return max(0,min(hi,(1<<R.randrange(0,max(1,hi.bit_length()+1)))+R.randrange(-1,2)))
    return R.randrange(0,hi+1)
V=[("a",0,2**256-1),("b",0,2**256-1),("c",0,255),("d",0,2**64-1),("e",0,31),("s",0,300)]
def gen(depth,asg):
    """returns (term, true value)"""
    if depth==0 or R.random()<.1:
        if R.random()<.3:
            v=R.choice([0,1,2,31,32,255,256,2**255,2**256-1,2**256,R.randrange(2**256),R.randrange(300)])
            return v,v
        n,lo,hi=R.choice(V)
        return ir.var(n,lo,hi),asg[n]
    op=R.choice("add sub mul div mod ext and or xor shl shr ite neg scale sdivc bitlen b2i eqb leb pick neg0".split())
    x,xv=gen(depth-1,asg)
    y,yv=gen(depth-1,asg)
    try:
        if op=="add": return ir.add(x,y),xv+yv
        if op=="sub": return ir.sub(x,y),xv-yv
        if op=="mul": return ir.mul(x,y),xv*yv
        if op=="scale":
            k=R.choice([2,3,256,-1,2**32,2**256]); return ir.scale(x,k),xv*k
        if op=="div":
            if yv==0: return x,xv
            return ir.div(x,y),xv//yv
        if op=="mod":
            if yv==0: return x,xv
            return ir.mod(x,y),xv%yv
        if op=="sdivc":
            k=R.choice([2,3,32,512,2**8,2**248,1000]); 
            if R.random()<.5: return ir.div(x,k),xv//k
            return ir.mod(x,k),xv%k
        if op=="ext":
            lo=R.choice([0,8,64,128,248,R.randrange(260)]);w=R.choice([None,8,16,256,R.randrange(1,260)])
            v=xv>>lo
            if w is not None: v&=(1<<w)-1
            return ir.ext(x,lo,w),v
        if op=="and":
            if R.random()<.5:
                m=R.choice([255,2**256-1,~31,2**160-1,0xff00,2**255,-2]); return ir.band(x,m),xv&m
            return ir.band(x,y),xv&yv
        if op=="or": return ir.bor(x,y),xv|yv
        if op=="xor": return ir.bxor(x,y),xv^yv
        if op=="shl":
            n,lo,hi=R.choice(V[-2:]); return ir.shl(x,ir.var(n,lo,hi)),xv<<asg[n]
        if op=="shr":
            n,lo,hi=R.choice(V[-2:]); return ir.shr(x,ir.var(n,lo,hi)),xv>>asg[n]
        if op in("ite","b2i","eqb","leb"):
            c,cv=(ir.le(x,y),xv<=yv) if R.random()<.5 else (ir.eq(x,y),xv==yv)
            if R.random()<.3: c,cv=ir.bnot(c),not cv
            if R.random()<.3:
                k=R.choice([0,1,2,31,32,255,256,xv,xv+1,xv-1]); c,cv=R.choice([(ir.le(x,k),xv<=k),(ir.le(k,x),k<=xv),(ir.eq(x,k),xv==k)])
            if R.random()<.2 and xv>=0:
              bx=ir.bitlen(x);bv=xv.bit_length();k=R.choice([0,1,8,256,bv,bv+1,bv-1]);c,cv=R.choice([(ir.le(bx,k),bv<=k),(ir.le(k,bx),k<=bv),(ir.eq(bx,k),bv==k)])
            if op!="ite": return ir.b2i(c),int(cv)
            z,zv=gen(depth-1,asg)
            return ir.ite(c,x,z),xv if cv else zv
        if op=="neg": return ir.neg(x),-xv
        if op=="neg0": return ir.ext(ir.neg(x),0,256),(-xv)%2**256
        if op=="bitlen": return ir.bitlen(x),xv.bit_length()
        if op=="pick":
            xs=[gen(0,asg) for _ in range(32)]
            return ir.pick([p[0] for p in xs],ir.var("e",0,31)),xs[asg["e"]][1]
    except NotImplementedError: pass
    return x,xv
bad=0
import time
t0=time.time()
for it in range(int(sys.argv[2]) if len(sys.argv)>2 else 20000):
    asg={n:rnd(hi) for n,lo,hi in V}
    # keep values from exploding
    t,v=gen(R.randrange(1,6),asg)
    A=ir.Assignment(ints=asg)
    ev=ir.evaluate(t,A,{})
    lo,hi=(t,t) if isinstance(t,int) else (t.lo,t.hi)
    if ev!=v or (lo is not None and v<lo) or (hi is not None and v>hi):
        bad+=1
        print("BAD",t if not isinstance(t,int) else t,ev,v,lo,hi)
        if bad>3: break
print(it,bad,time.time()-t0,len(ir._table))
