mod kit;
mod world;
use kit::*;

fn main() {
    let w = World::new(MegaSpecId::REX3);
    w.put(addr(1), 0, 1, &A::default().sstore(0, 1).done());
    let o = w.run(tx(addr(1), 3_000_000));
    println!("{:?} {}", o.result, o.kv_updates);
    check(o.kv_updates == 2, "kv");
}
