//! Checks on the whole crate, built in place from /repo/src.
mod analysis;
mod bayes;
mod cluster;
mod datasets;
mod gmm;
mod cgref;
mod gp;
mod knn;
mod linear;
mod models;
mod nnet;
mod optim;
mod pca;
mod svm;
mod tf;
mod toolkit;
mod util;

#[global_allocator]
static ALLOC: mce::alloc::Poison = mce::alloc::Poison;

/// With the large-batch and retraining scenarios for the model's set-ups (indices into models::NAMES).
fn bulk(mut p: mce::Property, set_ups: &'static [usize]) -> mce::Property { models::in_bulk(&mut p, set_ups); p }

fn main() {
    mce::main_with(vec![
        tf::minmax(), tf::standard(), tf::normal(), tf::shuffle(),
        analysis::cv(), analysis::confusion(), analysis::scores(),
        knn::search(), bulk(knn::classifier(), &[11, 12, 13, 24]),
        bulk(cluster::kmeans(), &[14, 15, 16]), bulk(cluster::dbscan(), &[17]),
        bulk(bayes::gaussian(), &[8]), bulk(bayes::discrete(), &[9, 10]),
        bulk(gmm::mixture(), &[18, 19, 20]),
        bulk(linear::lin_reg(), &[0, 26]), bulk(linear::logistic(), &[1, 27]), bulk(linear::glm(), &[2, 3, 4]),
        bulk(nnet::gradients(), &[25, 28]), nnet::training(),
        optim::descent(), optim::conjugate(),
        bulk(svm::svm(), &[5, 6, 30]), bulk(gp::process(), &[7, 29]), bulk(pca::pca(), &[21, 22, 23, 31]), models::wrong_data(), bulk(models::retraining(), &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]),
        toolkit::costs(), toolkit::regular(), toolkit::kernel_props(), datasets::published(),
    ])
}
