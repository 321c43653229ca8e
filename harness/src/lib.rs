pub mod common_props;
pub mod conc_props;
pub mod demand_chain;
pub mod demand_pass;
pub mod demand_props;
pub mod feed;
pub mod gens;
pub mod mem_props;
pub mod router_props;
pub mod store_props;
pub mod tok;
pub mod token_conc;
pub mod token_gauges;
pub mod token_props;

pub fn all() -> Vec<pbt::Prop> {
    let mut v = vec![];
    v.extend(common_props::props());
    v.extend(store_props::props());
    v.extend(conc_props::props());
    v.extend(router_props::props());
    v.extend(token_props::props());
    v.extend(demand_props::props());
    v.extend(demand_chain::props());
    v.extend(demand_pass::props());
    v.extend(mem_props::props());
    v
}
