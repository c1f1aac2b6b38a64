// item -> code, codes 0..n-1
impl Encoder {
    pub open spec fn wf(&self) -> bool {
        &&& self.mapping.dom().finite() && self.next_id == self.mapping.dom().len() && injective(self.mapping)
        &&& forall|k: i32| #[trigger] self.mapping.dom().contains(k) ==> 0 <= self.mapping[k] < self.next_id
    }
}
