mod rpc_props;
mod sim_props;
mod snap_props;
mod snapgen;

fn main() {
    let mut v = vec![];
    v.extend(snap_props::props());
    v.extend(rpc_props::props());
    v.extend(sim_props::props());
    pbt::main(v)
}
