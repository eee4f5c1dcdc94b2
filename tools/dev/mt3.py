S='clang-time-trace/src/tree.rs'
A='T03'
M=[
('le->lt end',A,A,[(S,"if candidate.stat.end() <= start {","if candidate.stat.end() < start {")]),
('start le',A,A,[(S,"if candidate.stat.start() < start {","if candidate.stat.start() <= start {")]),
('overlap ok',A,A,[(S,"if candidate.stat.end() <= start {","if candidate.stat.end() <= start || self.children.is_empty() {")]),
('order eq',A,A,[(S,"if end < self.last_end {","if end <= self.last_end {")]),
('order other',A,A,[(S,"if end < self.last_end {","if start < self.last_end && end < self.last_end {")]),
('last_end max dur',A,A,[(S,"self.last_end = end;","self.last_end = start;")]),
('last_end late',A,A,[(S,"        self.last_end = end;\n","        if self.activities.is_empty() { self.last_end = end; }\n")]),
('cand idx +1',A,A,[(S,"let candidate_idx = next_candidates.len();","let candidate_idx = next_candidates.len().saturating_sub(self.children.len() / 1000);")]),
('rel idx of next',A,A,[(S,"child_candidates = &mut next_candidates[..first_related_idx];","child_candidates = next_candidates;")]),
('first_rel not updated',A,A,[(S,"            first_related_idx = candidate.first_related_idx;\n            child_candidates = &mut next_candidates[..first_related_idx];","            if first_related_idx == current_idx { first_related_idx = candidate.first_related_idx; }\n            child_candidates = &mut next_candidates[..candidate.first_related_idx];")]),
('first_rel cand idx',A,A,[(S,"            first_related_idx = candidate.first_related_idx;\n            child_candidates = &mut next_candidates[..first_related_idx];","            first_related_idx = candidate_idx;\n            child_candidates = &mut next_candidates[..candidate.first_related_idx];")]),
('parent only once',A,A,[(S,"candidate.parent_idx = NonZeroUsize::new(current_idx);","if candidate.parent_idx.is_none() && self.children.len() == first_child_idx { candidate.parent_idx = NonZeroUsize::new(current_idx); }")]),
('parent of first child',A,A,[(S,"candidate.parent_idx = NonZeroUsize::new(current_idx);","candidate.parent_idx = NonZeroUsize::new(candidate_idx + 1);")]),
('dur sum skip short',A,A,[(S,"children_duration += candidate.stat.duration();","if candidate.stat.duration() > 1.0 { children_duration += candidate.stat.duration(); }")]),
('self dur max',A,A,[(S,"children_duration += candidate.stat.duration();","children_duration += candidate.self_duration;")]),
('self dur whole',A,A,[(S,"let self_duration = activity.duration() - children_duration;","let _ = &mut children_duration; let self_duration = activity.duration();")]),
('children range',A,A,[(S,"let children_indices = first_child_idx..self.children.len();","let children_indices = current_idx.min(first_child_idx)..self.children.len();")]),
('zero dur skip',A,A,[(S,"            // This is a child: mark","            if candidate.stat.duration() == 0.0 { first_related_idx = candidate.first_related_idx; child_candidates = &mut next_candidates[..first_related_idx]; continue; }\n            // This is a child: mark")]),
('root skip',A,A,[(S,"            self.children.push(next_candidates.len());\n","            if root.stat.duration() > 0.0 { self.children.push(next_candidates.len()); }\n")]),
('root by one',A,A,[(S,"root_candidates = &next_candidates[..root.first_related_idx];","root_candidates = &next_candidates[..next_candidates.len().min(root.first_related_idx)];")]),
('root idx',A,A,[(S,"            first_root_idx,\n        }\n    }\n}\n\n/// What","            first_root_idx: first_root_idx / 2 * 2,\n        }\n    }\n}\n\n/// What")]),
('roots all children',A,A,[(S,"self.hierarchy_iter(self.first_root_idx..)","self.hierarchy_iter(0..)")]),
('all_children +1',A,A,[(S,"self.tree.activities[first_child_idx..self.activity_idx]","self.tree.activities[first_child_idx..=self.activity_idx]")]),
('all_children idx',A,A,[(S,"let activity_idx = rel_child_idx + first_child_idx;","let activity_idx = rel_child_idx;")]),
('all_children tree.children',A,A,[(S,"let first_child_idx = self.activity.first_related_idx;","let first_child_idx = self.activity.children_indices.start;")]),
('parent none',A,A,[(S,"self.activity.parent_idx.map(|idx| {","self.activity.parent_idx.filter(|_| self.activity.children_indices.is_empty()).map(|idx| {")]),
('parent other',A,A,[(S,"activity: &self.tree.activities[idx],\n                activity_idx: idx,","activity: &self.tree.activities[idx],\n                activity_idx: self.activity_idx,")]),
('root first',A,A,[(S,"self.hierarchy_iter(self.first_root_idx..)","self.hierarchy_iter(self.first_root_idx..self.activities.len().min(65536))")]),
('end of stat',A,A,[('clang-time-trace/src/stats/activity/mod.rs',"self.start + self.duration","self.start + self.duration.max(0.001)")]),
('id',A,A,[(S,"    pub fn id(&self) -> ActivityTraceId {\n        self.activity_idx","    pub fn id(&self) -> ActivityTraceId {\n        self.activity.first_related_idx")]),
('skip all',A,A,[(S,"            .iter()\n            .enumerate()\n            .map(|(activity_idx, activity)| ActivityTrace {","            .iter()\n            .enumerate()\n            .skip(usize::from(self.children.is_empty()))\n            .map(|(activity_idx, activity)| ActivityTrace {")]),
# refactorings
('REF index loop',A,'-',[(S,"""        while let Some((candidate, next_candidates)) = child_candidates.split_last_mut() {""","""        while let [next_candidates @ .., candidate] = child_candidates {""")]),
('REF helper',A,'-',[(S,"""                if candidate.stat.end() <= start {
                    break;
                } else {
                    return Err(ActivityTreeError::PartialActivityOverlap {
                        prev_desc: format!("{:?}", candidate.stat.clone()).into(),
                        current_desc: format!("{activity:?}").into(),
                    });
                }""","""                if candidate.stat.end() > start {
                    return Err(Self::overlap(&candidate.stat, &activity));
                }
                break;"""),(S,"    /// Finish building the activity tree","    fn overlap(prev: &ActivityStat, current: &ActivityStat) -> ActivityTreeError { ActivityTreeError::PartialActivityOverlap { prev_desc: format!(\"{prev:?}\").into(), current_desc: format!(\"{current:?}\").into() } }\n    /// Finish building the activity tree")]),
('REF swap cmp',A,'-',[(S,"if candidate.stat.start() < start {","if start > candidate.stat.start() {"),(S,"if end < self.last_end {","if !(end >= self.last_end) {")]),
('REF dur',A,'-',[(S,"children_duration += candidate.stat.duration();","let d = candidate.stat.duration();\n            children_duration = children_duration + d;")]),
('REF parent match',A,'-',[(S,"""        self.activity.parent_idx.map(|idx| {
            let idx = usize::from(idx);
            ActivityTrace {
                tree: self.tree,
                activity: &self.tree.activities[idx],
                activity_idx: idx,
            }
        })""","""        match self.activity.parent_idx {
            Some(idx) => Some(self.tree.activity_trace(idx.get())),
            None => None,
        }""")]),
('REF allc',A,'-',[(S,"""        self.tree.activities[first_child_idx..self.activity_idx]
            .iter()
            .enumerate()
            .map(move |(rel_child_idx, activity)| {
                let activity_idx = rel_child_idx + first_child_idx;
                ActivityTrace {
                    tree: self.tree,
                    activity,
                    activity_idx,
                }
            })""","""        (first_child_idx..self.activity_idx).map(move |idx| self.tree.activity_trace(idx))""")]),
('REF root slice',A,'-',[(S,"""        while let Some((root, next_candidates)) = root_candidates.split_last() {
            // This is a root, add its index to our root list.
            self.children.push(next_candidates.len());
""","""        while let Some((root, rest)) = root_candidates.split_last() {
            let root_idx = rest.len();
            self.children.push(root_idx);
            let next_candidates = rest;
""")]),
('REF index build',A,'-',[(S,"""        let mut root_candidates = &self.activities[..];
        while let Some((root, next_candidates)) = root_candidates.split_last() {
            // This is a root, add its index to our root list.
            self.children.push(next_candidates.len());

            // Skip transitive children to find the previous root
            root_candidates = &next_candidates[..root.first_related_idx];
        }""","""        let mut end = self.activities.len();
        while end > 0 {
            let root_idx = end - 1;
            self.children.push(root_idx);
            end = self.activities[root_idx].first_related_idx;
        }""")]),
('REF loop insert',A,'-',[(S,"        while let Some((candidate, next_candidates)) = child_candidates.split_last_mut() {","        loop {\n            let Some((candidate, next_candidates)) = child_candidates.split_last_mut() else { break };")]),
('REF parent method',A,'-',[(S,"candidate.parent_idx = NonZeroUsize::new(current_idx);","candidate.set_parent(current_idx);"),(S,"/// Mechanism to build an","impl ActivityNode { fn set_parent(&mut self, idx: usize) { self.parent_idx = NonZeroUsize::new(idx); } }\n/// Mechanism to build an")]),
('REF reorder',A,'-',[(S,"            self.children.push(candidate_idx);\n            children_duration += candidate.stat.duration();","            children_duration += candidate.stat.duration();\n            self.children.push(candidate_idx);")]),
('REF idx loop insert',A,'-',[(S,"let mut child_candidates = &mut self.activities[..];","let mut end_idx = self.activities.len();"),(S,"""        while let Some((candidate, next_candidates)) = child_candidates.split_last_mut() {""","""        while end_idx > 0 {
            let candidate_idx = end_idx - 1;
            let candidate = &mut self.activities[candidate_idx];"""),(S,"            let candidate_idx = next_candidates.len();\n",""),(S,"child_candidates = &mut next_candidates[..first_related_idx];","end_idx = first_related_idx;")]),
('REF classify fn',A,'-',[(S,"            if candidate.stat.start() < start {\n                if candidate.stat.end() <= start {\n                    break;\n                } else {","            let begins_before = candidate.stat.start() < start;\n            let is_before = begins_before && candidate.stat.end() <= start;\n            if is_before { break; }\n            if begins_before {\n                {")]),
]
