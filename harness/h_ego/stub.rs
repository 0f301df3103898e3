//! Stand-in surrogates with affine mean and quadratic variance
use egobox_moe::*;
use ndarray::{Array1, Array2, Array3, ArrayView2, array};
use symrs::h;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Stub {
    pub a0: f64,
    pub a: Vec<f64>,
    pub v0: f64,
    pub v: Vec<f64>,
    pub theta: Array1<f64>,
}
impl Stub {
    pub fn draw(name: &str, nx: usize) -> Stub {
        Stub {
            a0: h::input(&format!("{name}a"), -5.0, 5.0),
            a: (0..nx).map(|i| h::input(&format!("{name}a{i}"), -5.0, 5.0)).collect(),
            v0: h::input(&format!("{name}v"), 0.1, 5.0),
            v: (0..nx).map(|i| h::input(&format!("{name}v{i}"), 0.0, 5.0)).collect(),
            theta: array![1.0],
        }
    }
    /// arbitrary offset, given slopes and variances (pairwise different)
    pub fn slopes(name: &str, nx: usize, f: f64) -> Stub {
        let a: Vec<f64> = [1.5, -0.75, 2.25][..nx].iter().map(|v| f * *v).collect();
        let v: Vec<f64> = [0.5, 1.25, 0.25][..nx].iter().map(|v| f * *v).collect();
        Stub { a0: h::input(&format!("{name}a"), -5.0, 5.0), a, v0: 1.0, v, theta: array![1.0] }
    }
    /// arbitrary offset, given slope and variance
    pub fn line(name: &str) -> Stub {
        Stub { a0: h::input(&format!("{name}a"), -5.0, 5.0), a: vec![1.5], v0: 1.0, v: vec![0.5], theta: array![1.0] }
    }
    /// constant mean, unit variance
    pub fn flat(nx: usize, m: f64) -> Stub {
        Stub { a0: m, a: vec![0.0; nx], v0: 1.0, v: vec![0.0; nx], theta: array![1.0] }
    }
    pub fn val(&self, x: &[f64]) -> f64 {
        let mut r = self.a0;
        for i in 0..x.len() {
            r = r + self.a[i] * x[i];
        }
        r
    }
    pub fn var(&self, x: &[f64]) -> f64 {
        let mut r = self.v0;
        for i in 0..x.len() {
            r = r + self.v[i] * x[i] * x[i];
        }
        r
    }
}
impl std::fmt::Display for Stub {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("stub")
    }
}
#[typetag::serde]
impl GpParameterized for Stub {
    fn theta(&self) -> &Array1<f64> {
        &self.theta
    }
    fn variance(&self) -> f64 {
        1.0
    }
    fn noise_variance(&self) -> f64 {
        0.0
    }
    fn likelihood(&self) -> f64 {
        0.0
    }
}
#[typetag::serde]
impl GpSurrogate for Stub {
    fn dims(&self) -> (usize, usize) {
        (self.a.len(), 1)
    }
    fn predict(&self, x: &ArrayView2<f64>) -> Result<Array1<f64>> {
        Ok(x.rows().into_iter().map(|r| self.val(&r.to_vec())).collect())
    }
    fn predict_var(&self, x: &ArrayView2<f64>) -> Result<Array1<f64>> {
        Ok(x.rows().into_iter().map(|r| self.var(&r.to_vec())).collect())
    }
    fn predict_valvar(&self, x: &ArrayView2<f64>) -> Result<(Array1<f64>, Array1<f64>)> {
        Ok((self.predict(x)?, self.predict_var(x)?))
    }
    fn save(&self, _path: &str, _format: GpFileFormat) -> Result<()> {
        unreachable!()
    }
}
#[typetag::serde]
impl GpSurrogateExt for Stub {
    fn predict_gradients(&self, x: &ArrayView2<f64>) -> Result<Array2<f64>> {
        Ok(Array2::from_shape_fn(x.dim(), |(_, j)| self.a[j]))
    }
    fn predict_var_gradients(&self, x: &ArrayView2<f64>) -> Result<Array2<f64>> {
        Ok(Array2::from_shape_fn(x.dim(), |(i, j)| 2.0 * self.v[j] * x[[i, j]]))
    }
    fn predict_valvar_gradients(&self, x: &ArrayView2<f64>) -> Result<(Array2<f64>, Array2<f64>)> {
        Ok((self.predict_gradients(x)?, self.predict_var_gradients(x)?))
    }
    fn sample(&self, _x: &ArrayView2<f64>, _n: usize) -> Result<Array2<f64>> {
        unreachable!()
    }
}
#[typetag::serde]
impl FullGpSurrogate for Stub {}

/// A mixture of one stand-in expert
#[derive(serde::Serialize, serde::Deserialize)]
pub struct Mix {
    pub e: Vec<Box<dyn FullGpSurrogate>>,
    pub s: Stub,
    pub td: (Array2<f64>, Array1<f64>),
}
impl Mix {
    pub fn new(s: Stub) -> Mix {
        let nx = s.a.len();
        Mix { e: vec![Box::new(s.clone())], s, td: (Array2::zeros((0, nx)), Array1::zeros(0)) }
    }
}
impl std::fmt::Display for Mix {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("stub mixture")
    }
}
impl Clustered for Mix {
    fn n_clusters(&self) -> usize {
        1
    }
    fn recombination(&self) -> Recombination<f64> {
        Recombination::Hard
    }
    fn to_clustering(&self) -> Clustering {
        let nx = self.s.a.len();
        let c = Array3::from_shape_fn((1, nx, nx), |(_, i, j)| if i == j { 1.0 } else { 0.0 });
        Clustering::new(GaussianMixture::new(array![1.0], Array2::zeros((1, nx)), c).unwrap(), Recombination::Hard)
    }
}
#[typetag::serde]
impl GpSurrogate for Mix {
    fn dims(&self) -> (usize, usize) {
        (self.s.a.len(), 1)
    }
    fn predict(&self, x: &ArrayView2<f64>) -> Result<Array1<f64>> {
        self.s.predict(x)
    }
    fn predict_var(&self, x: &ArrayView2<f64>) -> Result<Array1<f64>> {
        self.s.predict_var(x)
    }
    fn predict_valvar(&self, x: &ArrayView2<f64>) -> Result<(Array1<f64>, Array1<f64>)> {
        self.s.predict_valvar(x)
    }
    fn save(&self, _path: &str, _format: GpFileFormat) -> Result<()> {
        unreachable!()
    }
}
#[typetag::serde]
impl GpSurrogateExt for Mix {
    fn predict_gradients(&self, x: &ArrayView2<f64>) -> Result<Array2<f64>> {
        self.s.predict_gradients(x)
    }
    fn predict_var_gradients(&self, x: &ArrayView2<f64>) -> Result<Array2<f64>> {
        self.s.predict_var_gradients(x)
    }
    fn predict_valvar_gradients(&self, x: &ArrayView2<f64>) -> Result<(Array2<f64>, Array2<f64>)> {
        self.s.predict_valvar_gradients(x)
    }
    fn sample(&self, _x: &ArrayView2<f64>, _n: usize) -> Result<Array2<f64>> {
        unreachable!()
    }
}
#[typetag::serde]
impl GpQualityAssurance for Mix {
    fn training_data(&self) -> &(Array2<f64>, Array1<f64>) {
        &self.td
    }
    fn q2_k(&self, _k: usize) -> f64 {
        1.0
    }
    fn q2(&self) -> f64 {
        1.0
    }
    fn pva_k(&self, _k: usize) -> f64 {
        1.0
    }
    fn pva(&self) -> f64 {
        1.0
    }
    fn iae_alpha_k(&self, _k: usize) -> f64 {
        1.0
    }
    fn iae_alpha_k_score_with_plot(&self, _k: usize, _p: &mut IaeAlphaPlotData) -> f64 {
        1.0
    }
    fn iae_alpha(&self) -> f64 {
        1.0
    }
}
#[typetag::serde]
impl MixtureGpSurrogate for Mix {
    fn experts(&self) -> &Vec<Box<dyn FullGpSurrogate>> {
        &self.e
    }
}

/// What a builder was asked for at one training
#[derive(Clone, Default, Debug)]
pub struct Asked {
    pub on_clusters: bool,
    pub x: Array2<f64>,
    pub y: Array1<f64>,
    pub spec: Option<(RegressionSpec, CorrelationSpec)>,
    pub kpls: Option<usize>,
    pub nclusters: Option<NbClusters>,
    pub recombination: Option<Recombination<f64>>,
    pub tunings: Vec<ThetaTuning<f64>>,
    pub optim: (usize, usize),
    /// parameters of the model returned
    pub theta: Array1<f64>,
}
static ASKED: std::sync::Mutex<Vec<Asked>> = std::sync::Mutex::new(vec![]);
pub fn asked() -> Vec<Asked> {
    std::mem::take(&mut *ASKED.lock().unwrap_or_else(|e| e.into_inner()))
}

/// A builder of stand-in surrogates: constant mean, unit variance; records what it is asked for
#[derive(Clone, Default, serde::Serialize, serde::Deserialize)]
pub struct Builder {
    #[serde(skip)]
    a: Asked,
}
impl egobox_ego::SurrogateBuilder for Builder {
    fn new_with_xtypes(_x: &[egobox_ego::XType]) -> Self {
        Builder::default()
    }
    fn set_regression_spec(&mut self, r: RegressionSpec) {
        let c = self.a.spec.map(|s| s.1).unwrap_or(CorrelationSpec::ALL);
        self.a.spec = Some((r, c));
    }
    fn set_correlation_spec(&mut self, c: CorrelationSpec) {
        let r = self.a.spec.map(|s| s.0).unwrap_or(RegressionSpec::ALL);
        self.a.spec = Some((r, c));
    }
    fn set_kpls_dim(&mut self, k: Option<usize>) {
        self.a.kpls = k;
    }
    fn set_n_clusters(&mut self, n: NbClusters) {
        self.a.nclusters = Some(n);
    }
    fn set_recombination(&mut self, r: Recombination<f64>) {
        self.a.recombination = Some(r);
    }
    fn set_theta_tunings(&mut self, t: &[ThetaTuning<f64>]) {
        self.a.tunings = t.to_vec();
    }
    fn set_optim_params(&mut self, a: usize, b: usize) {
        self.a.optim = (a, b);
    }
    fn train(&self, xt: ArrayView2<f64>, yt: ndarray::ArrayView1<f64>) -> egobox_ego::Result<Box<dyn MixtureGpSurrogate>> {
        Ok(self.make(xt, yt, false))
    }
    fn train_on_clusters(
        &self,
        xt: ArrayView2<f64>,
        yt: ndarray::ArrayView1<f64>,
        _c: &Clustering,
    ) -> egobox_ego::Result<Box<dyn MixtureGpSurrogate>> {
        Ok(self.make(xt, yt, true))
    }
}
impl Builder {
    fn make(&self, xt: ArrayView2<f64>, yt: ndarray::ArrayView1<f64>, on_clusters: bool) -> Box<dyn MixtureGpSurrogate> {
        let mut log = ASKED.lock().unwrap_or_else(|e| e.into_inner());
        let mut a = self.a.clone();
        a.on_clusters = on_clusters;
        a.x = xt.to_owned();
        a.y = yt.to_owned();
        // an optimized parameter is different each time
        a.theta = match self.a.tunings.first() {
            Some(ThetaTuning::Fixed(t)) => t.clone(),
            _ => Array1::from_elem(a.kpls.unwrap_or(xt.ncols()), 0.5 + 0.125 * log.len() as f64),
        };
        let mut s = Stub::flat(xt.ncols(), 1.0);
        s.theta = a.theta.clone();
        let mut m = Mix::new(s);
        m.td = (a.x.clone(), a.y.clone());
        log.push(a);
        Box::new(m)
    }
}
