"""Programs that show the recorded findings."""


def late():
    """a task submitted to the queue of a worker that blocks in invoke_waiting (E03)"""
    out=[]
    for cores in (3,4,5):
      for n in (2,3,4,5):
        t={"1":[{"op":"set","v":0},{"op":"iw","v":1}]}
        m=[{"op":"spawn"},{"op":"sub","k":1,"x":"p"},{"op":"wait","v":0},{"op":"q"}][:3]
        for k in range(2,2+n):
            t[str(k)]=[{"op":"set","v":1}] if k==n+1 else []
            m.append({"op":"sub","k":k,"x":"p"})
        m+=[{"op":"q"},{"op":"stop"}]
        out.append({"id":cores*10+n,"cores":cores,"main":m,"thr":[],"tasks":t})
    return out


def joining():
    """pool tasks that submit or await while pre_exit joins the pool (E04)"""
    out=[]
    for cores in (2,3,4,5):
        t={"1":[{"op":"y","k":30},{"op":"sub","k":3,"x":"p"},{"op":"sub","k":4,"x":"p"}],"2":[{"op":"y","k":3}]}
        m=[{"op":"sub","k":1,"x":"p"},{"op":"sub","k":2,"x":"p"},{"op":"preexit"}]
        out.append({"id":cores,"cores":cores,"main":m,"thr":[],"tasks":t})
        t={"1":[{"op":"y","k":30},{"op":"as","k":3,"x":"p"},{"op":"aw","k":3}],"2":[{"op":"y","k":3}]}
        m=[{"op":"sub","k":1,"x":"p"},{"op":"sub","k":2,"x":"p"},{"op":"preexit"}]
        out.append({"id":10+cores,"cores":cores,"main":m,"thr":[],"tasks":t})
    return out


def limit():
    """as many tasks as may wait for one submitted before them (E03)"""
    out=[]
    for cores in (1,2,3,4):
      b=max(9,4*cores+1)-1
      for x in range(6):
        root=[{"op":"as","k":k,"x":"plh"[(k+x)%3]} for k in range(2,b+2)]
        t={str(k):[{"op":"iw","v":0}] for k in range(2,b+1)}
        t["1"]=root+[{"op":"iw","v":0}]
        t[str(b+1)]=[{"op":"set","v":0}]
        m=[{"op":"as","k":1,"x":"p"}]+[{"op":"aw","k":k} for k in range(1,b+2)]
        out.append({"id":cores*10+x,"cores":cores,"main":m,"thr":[],"tasks":t})
    return out
