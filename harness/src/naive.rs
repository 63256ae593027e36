//! A dataset whose pattern matching is a plain filter over a list of quads (independent of the
//! indexed dataset of rdf-types).
use rdf_types::{
    dataset::{Dataset, PatternMatchingDataset, TraversableDataset},
    pattern::{quad::canonical::*, CanonicalQuadPattern},
    Quad,
};

pub struct Naive<R>(pub Vec<Quad<R>>);

impl<R> Dataset for Naive<R> {
    type Resource = R;
}
fn as_ref<R>(q: &Quad<R>) -> Quad<&R> {
    Quad(&q.0, &q.1, &q.2, q.3.as_ref())
}
impl<R> TraversableDataset for Naive<R> {
    type Quads<'a> = Box<dyn 'a + Iterator<Item = Quad<&'a R>>> where R: 'a;
    fn quads(&self) -> Self::Quads<'_> {
        Box::new(self.0.iter().map(as_ref))
    }
}
impl<R: Ord + Clone> PatternMatchingDataset for Naive<R> {
    type QuadPatternMatching<'a, 'p> = std::vec::IntoIter<Quad<&'a R>> where R: 'a, R: 'p;
    fn quad_pattern_matching<'p>(&self, p: CanonicalQuadPattern<&'p R>) -> Self::QuadPatternMatching<'_, 'p> {
        let v: Vec<Quad<&R>> = self
            .0
            .iter()
            .filter(|q| {
                (match p.subject() {
                    PatternSubject::Any => true,
                    PatternSubject::Given(t) => **t == q.0,
                }) && (match p.predicate() {
                    PatternPredicate::Any => true,
                    PatternPredicate::SameAsSubject => q.1 == q.0,
                    PatternPredicate::Given(t) => **t == q.1,
                }) && (match p.object() {
                    PatternObject::Any => true,
                    PatternObject::SameAsSubject => q.2 == q.0,
                    PatternObject::SameAsPredicate => q.2 == q.1,
                    PatternObject::Given(t) => **t == q.2,
                }) && (match p.graph() {
                    PatternGraph::Any => true,
                    PatternGraph::SameAsSubject => q.3.as_ref() == Some(&q.0),
                    PatternGraph::SameAsPredicate => q.3.as_ref() == Some(&q.1),
                    PatternGraph::SameAsObject => q.3.as_ref() == Some(&q.2),
                    PatternGraph::Given(g) => q.3.as_ref() == g.map(|t| &**t),
                })
            })
            .map(as_ref)
            .collect();
        v.into_iter()
    }
}
