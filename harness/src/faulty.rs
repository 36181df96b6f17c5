//! A point cloud of our own: arbitrary index set, optional failure at the k-th point access.
use crate::trees::Data;
use pointcloud::pc_errors::*;
use pointcloud::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub struct Faulty {
    pub idx: Vec<usize>,
    pub pts: Vec<Vec<f32>>,
    pub dim: usize,
    /// accesses so far
    pub count: AtomicUsize,
    /// accesses that fail
    pub fail: [AtomicUsize; 2],
    /// bit k: the point at position k cannot be read
    pub lost: AtomicUsize,
    /// the one position that cannot be read, and how often that was tried
    pub gone: AtomicUsize,
    pub tried: AtomicUsize,
}

impl Faulty {
    pub fn new(d: &Data, idx: Vec<usize>) -> Faulty {
        Faulty {
            idx,
            pts: d.pts.clone(),
            dim: d.dim,
            count: AtomicUsize::new(0),
            fail: [AtomicUsize::new(usize::MAX), AtomicUsize::new(usize::MAX)],
            lost: AtomicUsize::new(0),
            gone: AtomicUsize::new(usize::MAX),
            tried: AtomicUsize::new(0),
        }
    }
    /// Claims so many dimensions that batches of more than three points are handled in parallel.
    pub fn wide(mut self, yes: bool) -> Faulty {
        if yes {
            self.dim = 200_000;
        }
        self
    }
    pub fn arm(&self, a: usize, b: usize) {
        self.count.store(0, SeqCst);
        self.fail[0].store(a, SeqCst);
        self.fail[1].store(b, SeqCst);
    }
    pub fn disarm(&self) -> usize {
        let n = self.count.load(SeqCst);
        self.arm(usize::MAX, usize::MAX);
        n
    }
}

impl PointCloud for Faulty {
    type Metric = L2;
    type Point = [f32];
    type PointRef<'a> = &'a [f32];
    type LabelSummary = ();
    type Label = ();
    type MetaSummary = ();
    type Metadata = ();

    fn metadata(&self, _: usize) -> PointCloudResult<Option<&()>> {
        Ok(None)
    }
    fn metasummary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<()>> {
        Ok(SummaryCounter { summary: (), nones: pns.len(), errors: 0 })
    }
    fn label(&self, _: usize) -> PointCloudResult<Option<&()>> {
        Ok(None)
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<()>> {
        Ok(SummaryCounter { summary: (), nones: pns.len(), errors: 0 })
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        Ok(pi.to_string())
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        pn.parse().map_err(|_| ParsingError::RegularParsingError("not a number").into())
    }
    fn names(&self) -> Vec<String> {
        self.idx.iter().map(|i| i.to_string()).collect()
    }
    fn dim(&self) -> usize {
        self.dim
    }
    fn len(&self) -> usize {
        self.pts.len()
    }
    fn is_empty(&self) -> bool {
        self.pts.is_empty()
    }
    fn reference_indexes(&self) -> Vec<usize> {
        self.idx.clone()
    }
    fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a [f32]> {
        let n = self.count.fetch_add(1, SeqCst);
        if n == self.fail[0].load(SeqCst) || n == self.fail[1].load(SeqCst) {
            return Err(PointCloudError::data_access(i, "injected".to_string()));
        }
        let at = if self.idx.get(i) == Some(&i) { Some(i) } else { self.idx.iter().position(|x| *x == i) };
        match at {
            Some(k) if k == self.gone.load(SeqCst) => {
                self.tried.fetch_add(1, SeqCst);
                Err(PointCloudError::data_access(i, "gone".to_string()))
            }
            Some(k) if k < 64 && self.lost.load(SeqCst) >> k & 1 == 1 => Err(PointCloudError::data_access(i, "lost".to_string())),
            Some(k) => Ok(&self.pts[k][..]),
            None => Err(PointCloudError::data_access(i, "no such index".to_string())),
        }
    }
}
