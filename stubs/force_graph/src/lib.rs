//! Stand-in for `force_graph`: keeps the nodes where they are put.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct DefaultNodeIdx(usize);

#[derive(Clone, Debug, Default)]
pub struct SimulationParameters;

#[derive(Clone, Debug, Default)]
pub struct EdgeData<E = ()> {
    pub user_data: E,
}

#[derive(Clone, Debug, Default)]
pub struct NodeData<N = ()> {
    pub x: f32,
    pub y: f32,
    pub mass: f32,
    pub is_anchor: bool,
    pub user_data: N,
}

pub struct Node<N = ()> {
    pub data: NodeData<N>,
    index: DefaultNodeIdx,
}
impl<N> Node<N> {
    pub fn x(&self) -> f32 {
        self.data.x
    }
    pub fn y(&self) -> f32 {
        self.data.y
    }
    pub fn index(&self) -> DefaultNodeIdx {
        self.index
    }
}

pub struct ForceGraph<N = (), E = ()> {
    nodes: Vec<Node<N>>,
    edges: Vec<(DefaultNodeIdx, DefaultNodeIdx, EdgeData<E>)>,
}
impl<N, E> ForceGraph<N, E> {
    pub fn new(_: SimulationParameters) -> Self {
        Self {
            nodes: vec![],
            edges: vec![],
        }
    }
    pub fn add_node(&mut self, data: NodeData<N>) -> DefaultNodeIdx {
        let index = DefaultNodeIdx(self.nodes.len());
        self.nodes.push(Node { data, index });
        index
    }
    pub fn add_edge(&mut self, a: DefaultNodeIdx, b: DefaultNodeIdx, data: EdgeData<E>) {
        self.edges.push((a, b, data));
    }
    pub fn update(&mut self, _dt: f32) {}
    pub fn visit_nodes<F: FnMut(&Node<N>)>(&self, f: F) {
        self.nodes.iter().for_each(f)
    }
    pub fn visit_edges<F: FnMut(&Node<N>, &Node<N>, &EdgeData<E>)>(&self, mut f: F) {
        for (a, b, d) in &self.edges {
            f(&self.nodes[a.0], &self.nodes[b.0], d)
        }
    }
}
