use crate::case::Prop;
mod cut;
mod dedup;
mod expl;
mod interval;
mod iso;
mod mesh;
pub mod geom;
mod preds;
mod repair;
mod tet;
mod tri;
/// every way into a property's run
pub fn play(p: &dyn Prop, c: &crate::case::Case) -> crate::case::Verdict {
    geom::negative_zeroes(c.p("negz") == 1);
    p.run(c)
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(tet::Tet),
        Box::new(tri::Planar),
        Box::new(tri::Soup),
        Box::new(preds::Orient),
        Box::new(expl::Explicit),
        Box::new(preds::Order),
        Box::new(mesh::Connectivity),
        Box::new(mesh::Edits),
        Box::new(repair::Closed),
        Box::new(repair::Union),
        Box::new(repair::Capped),
        Box::new(cut::Kolmogorov),
        Box::new(cut::Fifo),
        Box::new(cut::Sets),
        Box::new(dedup::Dedup),
        Box::new(iso::Isolated),
        Box::new(interval::Arith),
    ]
}
