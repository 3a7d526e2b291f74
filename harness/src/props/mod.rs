mod cli;
mod entropy;
mod hdr;
mod image;
mod meta;
mod profile;
use crate::core::Prop;

pub fn all() -> Vec<Prop> {
    let p = |id, rule, quick, thorough, f| Prop { id, rule, quick, thorough, f, hang_s: 100, hang_is_violation: true, assumptions: &[] };
    let mut v = vec![entropy::prop()];
    v.push(p("C01", "image info was produced", 80000, 5000000, meta::c01));
    v.push(p("C12", "image info was produced", 60000, 3000000, meta::c12));
    v.push(p("C03", "fed in more than two pieces or through a buffering/low-estimate reader", 1000, 100000, meta::c03));
    v.push(p("C04", "every wrapped file", 1200, 100000, meta::c04));
    v.push(p("C05", "more than one task", 1000, 80000, meta::c05));
    v.push(p("C06", "every case", 800, 60000, meta::c06));
    v.push(p("C07", "every case", 5000, 400000, meta::c07));
    v.push(p("C08", "every case", 1000, 80000, meta::c08));
    v.push(p("C09", "orientation other than the identity", 3000, 300000, meta::c09));
    v.push(p("C10", "more than one visible frame", 700, 40000, meta::c10));
    v.push(p("C11", "at least one flush drew something", 2500, 80000, meta::c11));
    v.push(p("C27", "samples of an incomplete frame were compared", 2000, 100000, meta::c27));
    v.push(p("C13", "every cut", 1000, 80000, meta::c13));
    v.push(p("C15", "every file", 120000, 6000000, hdr::c15));
    v.push(p("C16", "every file", 80000, 3000000, hdr::c16));
    v.push(p("C17", "every encoding", 100000, 10000000, profile::c17));
    v.push(p("C02", "every image", 60000, 6000000, image::c02));
    v.push(p("C19", "every image", 15000, 3000000, image::c19));
    v.push(p("C20", "a frame has patches", 3000, 300000, image::c20));
    v.push(p("C21", "a frame or channel is upsampled", 3000, 300000, image::c21));
    v.push(p("C22", "a frame has a filter", 3000, 300000, image::c22));
    v.push(p("C23", "a frame is coded with VarDCT", 3000, 300000, image::c23));
    v.push(p("C24", "a frame has noise", 3000, 300000, image::c24));
    v.push(p("C25", "a frame has splines", 1200, 300000, image::c25));
    v.push(p("C26", "every run", 2500, 200000, cli::c26));
    v.push(p("C30", "a frame is YCbCr", 3000, 300000, image::c30));
    v.push(p("C18", "every image", 3000, 300000, image::c18));
    v
}
