F='cpparser/src/subparsers/functions.rs'; O='cpparser/src/subparsers/operators/mod.rs'; D='cpparser/src/subparsers/types/declarators.rs'
C='cpparser/src/display.rs'; S='cpparser/src/interning/slice.rs'; T='cpparser/src/subparsers/templates.rs'; N='cpparser/src/subparsers/names/scopes.rs'
A='cpparser/src/subparsers/anonymous.rs'; Q='cpparser/src/subparsers/types/qualifiers.rs'; Y='cpparser/src/subparsers/types/mod.rs'; U='cpparser/src/subparsers/operators/usage.rs'
V='cpparser/src/subparsers/values/mod.rs'; L='cpparser/src/subparsers/types/specifiers.rs'; I='cpparser/src/subparsers/names/unqualified.rs'
X='P01,P02'
M=[
('no cv',X,'P01',[(F,'        if cv != ConstVolatile::default() {\n            write!(f, " {cv}")?;\n        }','        if cv == ConstVolatile::CONST {\n            write!(f, " const")?;\n        }')]),
('no reference',X,'P01',[(F,'        if reference != Reference::None {\n            write!(f, " {reference}")?;','        if reference == Reference::LValue {\n            write!(f, " {reference}")?;')]),
('noexcept',X,'P01',[(F,'            write!(f, " noexcept")?;\n            if let Some(value) = value {','            if let Some(value) = value {\n                write!(f, " noexcept")?;')]),
('variadic',X,'P01',[(F,'            } else if state.can_recurse() {\n                write!(f, ", ...")?;\n            }','            }')]),
('variadic2',X,'-',[(F,'''            if parameters.is_empty() {
                write!(f, "...")?;
            } else if state.can_recurse() {
                write!(f, ", ...")?;
            }''','''            match (parameters.is_empty(), state.can_recurse()) {
                (true, _) => write!(f, "...")?,
                (false, true) => write!(f, ", ...")?,
                (false, false) => {}
            }''')]),
('helper',X,'-',[(F,'''        let cv = self.cv();
        if cv != ConstVolatile::default() {
            write!(f, " {cv}")?;
        }

        let reference = self.reference();
        if reference != Reference::None {
            write!(f, " {reference}")?;
        }
''','''        self.display_qualifiers(f)?;
'''),(F,'''impl CustomDisplay for FunctionSignatureView<'_> {''','''impl FunctionSignatureView<'_> {
    fn display_qualifiers(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let cv = self.cv();
        if cv != ConstVolatile::default() {
            f.write_str(" ")?;
            cv.fmt(f)?;
        }
        match self.reference() {
            Reference::None => Ok(()),
            r => write!(f, " {r}"),
        }
    }
}
impl CustomDisplay for FunctionSignatureView<'_> {''')]),
('no noexcept depth',X,'P02',[(F,'            .max(self.noexcept().recursion_depth())\n','')]),
('min depth',X,'P02',[(F,'            .max(self.trailing_return().recursion_depth())','            .min(self.trailing_return().recursion_depth())')]),
('plus depth',X,'P02',[(F,'            .max(self.trailing_return().recursion_depth())','            .max(self.trailing_return().recursion_depth() + 1)')]),
('depth order',X,'-',[(F,'''        self.parameters()
            .recursion_depth()
            .max(self.noexcept().recursion_depth())
            .max(self.trailing_return().recursion_depth())''','''        let mut depth = self.trailing_return().recursion_depth();
        depth = depth.max(self.noexcept().recursion_depth());
        std::cmp::max(depth, self.parameters().recursion_depth())''')]),
('depth if',X,'-',[(F,'''            .max(self.trailing_return().recursion_depth())''','''            .max(match self.trailing_return() { Some(ty) => ty.recursion_depth(), None => 0 })''')]),
('twice',X,'P01',[(O,'                if *twice {\n                    write!(f, "{symbol}")?;\n                }\n','                if *twice && !*equal {\n                    write!(f, "{symbol}")?;\n                }\n')]),
('star',X,'P01',[(O,'                if *star {\n                    write!(f, "*")?;\n                }\n','                if *star && context != DisplayContext::BinaryUsage {\n                    write!(f, "*")?;\n                }\n')]),
('index',X,'P01',[(O,'                if *is_index {\n                    write!(f, "[]")?;','                if *is_index && context != DisplayContext::Declaration {\n                    write!(f, "[]")?;')]),
('deletearray',X,'P01',[(O,'                if *array {\n                    write!(f, "[]")?;\n                }\n','                if *array && *is_delete {\n                    write!(f, "[]")?;\n                }\n')]),
('conversion depth',X,'P02',[(O,'            Self::Conversion(ty) => ty.recursion_depth(),','            Self::Conversion(_) => 0,')]),
('conversion plain',X,'P01',[(O,'                ty.display_impl(f, state)?;','                write!(f, "{ty}")?;')]),
('pointer path',X,'P01',[(D,'if path.is_rooted() || !path.scopes().is_empty() {','if !path.scopes().is_empty() {')]),
('pointer path2',X,'-',[(D,'if path.is_rooted() || !path.scopes().is_empty() {','let trivial = !path.is_rooted() && path.scopes().len() == 0;\n                if !trivial {')]),
('restrict',X,'P01',[(D,'                if *restrict {\n','                if *restrict && *cv == ConstVolatile::default() {\n')]),
('cv const',X,'P01',[(D,'                if *cv != ConstVolatile::default() {','                if *cv == ConstVolatile::CONST {')]),
('default state',X,'P01',[(D,'                d.display_impl(f, state)?;','                d.display_impl(f, &DisplayState::default())?;')]),
('limit display',X,'P01',[(D,'        self.display_impl(f, &DisplayState::default())','        self.display_impl(f, &DisplayState::new(4))')]),
('limit display 2',X,'-',[(D,'        self.display_impl(f, &DisplayState::default())','        let everything = DisplayState::new(usize::MAX);\n        self.display_impl(f, &everything)')]),
('default limit',X,'P01',[(C,'            max_recursion: usize::MAX,','            max_recursion: 64,')]),
('pointer depth',X,'P02',[(D,'            Self::Pointer { path, .. } => path.recursion_depth(),','            Self::Pointer { .. } => 0,')]),
('volatile',X,'P01',[(Q,'        if self.is_volatile {','        if self.is_volatile && !self.is_const {')]),
('anon',X,'P01',[(A,'        } else if self.inner.location.is_some() {\n            write!(f, " entity")?;\n        }\n        if let Some(location) = self.source_location() {\n            write!(f, " at {location}")?;\n        }','        } else if let Some(location) = self.source_location() {\n            write!(f, " entity at {location}")?;\n        }')]),
('attr',X,'P01',[(Y,'        if !attributes.is_empty() {','        if !attributes.is_empty() && state.can_recurse() {')]),
('new rooted',X,'P01',[(U,'        if self.rooted() {\n            write!(f, "::")?;\n        }\n        write!(f, "new")?;','        if self.rooted() && self.placement().is_none() {\n            write!(f, "::")?;\n        }\n        write!(f, "new")?;')]),
('no ellipsis hidden',X,'P01',[(N,'            write!(f, "…::")?;','            write!(f, "::")?;')]),
('rooted bounded',X,'P02',[(N,'        if state.can_recurse() || self.scopes().is_empty() {','        if state.can_recurse() {')]),
('template void',X,'P01',[(T,'        } else if let Ok(_guard) = state.recurse() {','        } else if state.can_recurse() {\n            write!(f, "<…>")\n        } else if let Ok(_guard) = state.recurse() {')]),
('template depth',X,'P02',[(T,'        } else {\n            1\n        }','        } else {\n            0\n        }')]),
('template depth2',X,'P02',[(T,'            list.recursion_depth()\n','            list.recursion_depth() + 1\n')]),
('template can',X,'-',[(T,'        } else if let Ok(_guard) = state.recurse() {','        } else if state.can_recurse() {')]),
('slice depth',X,'P02',[(S,'            .map(|item| item.recursion_depth() + 1)','            .map(|item| item.recursion_depth())')]),
('slice depth skip',X,'P02',[(S,'        self.iter()\n            .map(|item| item.recursion_depth() + 1)','        self.iter()\n            .take(8)\n            .map(|item| item.recursion_depth() + 1)')]),
('slice min',X,'P02',[(S,'            .max()\n','            .min()\n')]),
('slice depth outer',X,'-',[(S,'            .map(|item| item.recursion_depth() + 1)\n            .max()\n            .unwrap_or(0)','            .map(|item| 1 + item.recursion_depth())\n            .fold(0, usize::max)')]),
('slice depth loop',X,'-',[(S,'        self.iter()\n            .map(|item| item.recursion_depth() + 1)\n            .max()\n            .unwrap_or(0)','        let mut depth = 0;\n        for item in self.iter() {\n            depth = depth.max(item.recursion_depth() + 1);\n        }\n        depth')]),
('slice ellipsis >1',X,'P01',[(S,'} else if self.iter().count() > 0 {','} else if self.iter().count() > 1 {')]),
('slice ellipsis empty',X,'-',[(S,'} else if self.iter().count() > 0 {','} else if !self.is_empty() {')]),
('slice skip',X,'P01',[(S,'let mut iterator = self.iter().peekable();','let mut iterator = self.iter().take(16).peekable();')]),
('slice rev',X,'P01',[(S,'let mut iterator = self.iter().peekable();','let mut iterator = self.iter().rev().peekable();')]),
('slice sep',X,'P01',[(S,'                if iterator.peek().is_some() {\n                    write!(f, "{}", ItemView::DISPLAY_SEPARATOR)?;\n                }','                write!(f, "{}", ItemView::DISPLAY_SEPARATOR)?;')]),
('slice nosep',X,'P01',[(S,'                if iterator.peek().is_some() {\n                    write!(f, "{}", ItemView::DISPLAY_SEPARATOR)?;\n                }','')]),
('slice enumerate',X,'-',[(S,'''            let mut iterator = self.iter().peekable();
            while let Some(view) = iterator.next() {
                view.display_impl(f, state)?;
                if iterator.peek().is_some() {
                    write!(f, "{}", ItemView::DISPLAY_SEPARATOR)?;
                }
            }''','''            for (idx, view) in self.iter().enumerate() {
                if idx > 0 {
                    f.write_str(ItemView::DISPLAY_SEPARATOR)?;
                }
                view.display_impl(f, state)?;
            }''')]),
('slice first',X,'-',[(S,'''            let mut iterator = self.iter().peekable();
            while let Some(view) = iterator.next() {
                view.display_impl(f, state)?;
                if iterator.peek().is_some() {
                    write!(f, "{}", ItemView::DISPLAY_SEPARATOR)?;
                }
            }''','''            let mut items = self.iter();
            if let Some(first) = items.next() {
                first.display_impl(f, state)?;
                for view in items {
                    write!(f, "{}", ItemView::DISPLAY_SEPARATOR)?;
                    view.display_impl(f, state)?;
                }
            }''')]),
('slice flag',X,'-',[(S,'''            let mut iterator = self.iter().peekable();
            while let Some(view) = iterator.next() {
                view.display_impl(f, state)?;
                if iterator.peek().is_some() {
                    write!(f, "{}", ItemView::DISPLAY_SEPARATOR)?;
                }
            }''','''            let mut first = true;
            for view in self.iter() {
                if !first {
                    write!(f, "{}", ItemView::DISPLAY_SEPARATOR)?;
                }
                first = false;
                view.display_impl(f, state)?;
            }''')]),
('slice sep var',X,'-',[(S,'''            let mut iterator = self.iter().peekable();
            while let Some(view) = iterator.next() {
                view.display_impl(f, state)?;
                if iterator.peek().is_some() {
                    write!(f, "{}", ItemView::DISPLAY_SEPARATOR)?;
                }
            }''','''            let mut separator = "";
            for view in self.iter() {
                write!(f, "{separator}")?;
                view.display_impl(f, state)?;
                separator = ItemView::DISPLAY_SEPARATOR;
            }''')]),
('slice flag wrong',X,'P01',[(S,'''            let mut iterator = self.iter().peekable();
            while let Some(view) = iterator.next() {
                view.display_impl(f, state)?;
                if iterator.peek().is_some() {
                    write!(f, "{}", ItemView::DISPLAY_SEPARATOR)?;
                }
            }''','''            for (idx, view) in self.iter().enumerate() {
                if idx > 1 {
                    f.write_str(ItemView::DISPLAY_SEPARATOR)?;
                }
                view.display_impl(f, state)?;
            }''')]),
('slice no guard',X,'P01',[(S,'        if let Ok(_guard) = state.recurse() {\n            let mut','        if state.can_recurse() {\n            let mut')]),
('slice guard dropped',X,'-',[(S,'        if let Ok(_guard) = state.recurse() {\n            let mut','        if let Ok(_) = state.recurse() {\n            let mut')]),
('bounded lt',X,'P02',[(C,'            if curr_display.width() > max_cols.into() {','            if curr_display.width() > usize::from(max_cols) + 1 {')]),
('bounded len',X,'P02',[(C,'            if curr_display.width() > max_cols.into() {','            if curr_display.len() > max_cols.into() {')]),
('bounded excl',X,'P02',[(C,'        for recursion_depth in 0..=self.recursion_depth() {','        for recursion_depth in 0..self.recursion_depth() {')]),
('bounded from 1',X,'P02',[(C,'        for recursion_depth in 0..=self.recursion_depth() {','        for recursion_depth in 1..=self.recursion_depth() {')]),
('bounded no clear',X,'P02',[(C,'                curr_display.clear()\n','')]),
('bounded curr',X,'P02',[(C,'        prev_display\n    }\n}','        if curr_display.is_empty() { prev_display } else { curr_display }\n    }\n}')]),
('bounded continue',X,'-',[(C,'                break;\n            } else {','                curr_display.clear();\n                continue;\n            } else {')]),
('bounded ge',X,'-',[(C,'''            if curr_display.width() > max_cols.into() {
                break;
            } else {
                std::mem::swap(&mut prev_display, &mut curr_display);
                curr_display.clear()
            }''','''            if curr_display.width() <= usize::from(max_cols) {
                std::mem::swap(&mut prev_display, &mut curr_display);
                curr_display.clear();
            } else {
                break;
            }''')]),
('bounded to_string',X,'-',[(C,'''        let mut curr_display = String::new();
        for recursion_depth in 0..=self.recursion_depth() {
            write!(
                &mut curr_display,
                "{}",
                self.display(&DisplayState::new(recursion_depth))
            )
            .expect("Failed to display entity");
            if curr_display.width() > max_cols.into() {
                break;
            } else {
                std::mem::swap(&mut prev_display, &mut curr_display);
                curr_display.clear()
            }
        }
        prev_display''','''        for recursion_depth in 0..=self.recursion_depth() {
            let state = DisplayState::new(recursion_depth);
            let curr_display = self.display(&state).to_string();
            if curr_display.width() > max_cols.into() {
                return prev_display;
            }
            prev_display = curr_display;
        }
        prev_display''')]),
('guard no give back',X,'P02',[(C,'        state.max_recursion += 1;','        state.max_recursion = state.max_recursion.saturating_add(0);')]),
('recurse no count',X,'P02',[(C,'            let mut state = self.0.borrow_mut();\n            state.max_recursion -= 1;','            let mut state = self.0.borrow_mut();\n            state.max_recursion = state.max_recursion.min(usize::MAX - 1);')]),
('can 1',X,'P02',[(C,'        self.max_recursion() > 0','        self.max_recursion() > 1')]),
('can ne',X,'-',[(C,'        self.max_recursion() > 0','        self.max_recursion() != 0')]),
('recurse checked',X,'-',[(C,'''        if !self.can_recurse() {
            return Err(RecursionLimitReached);
        }
        {
            let mut state = self.0.borrow_mut();
            state.max_recursion -= 1;
        }
        Ok(RecursionGuard { state: self })''','''        let mut state = self.0.borrow_mut();
        if state.max_recursion == 0 {
            return Err(RecursionLimitReached);
        }
        state.max_recursion -= 1;
        drop(state);
        Ok(RecursionGuard { state: self })''')]),
('value trailer',X,'P01',[(V,'            Self::Ellipsis => write!(f, "..."),','            Self::Ellipsis => Ok(()),')]),
('ternary swap',X,'P01',[(V,"            Self::TernaryOp(v1, v2) => {\n                write!(f, \" ? \")?;\n                v1.display_impl(f, state)?;\n                write!(f, \" : \")?;\n                v2.display","            Self::TernaryOp(v1, _v2) => {\n                write!(f, \" ? \")?;\n                v1.display_impl(f, state)?;\n                write!(f, \" : \")?;\n                v1.display")]),
('destructor',X,'P01',[(I,'                if *is_destructor {','                if *is_destructor && template_parameters.is_none() {')]),
('rev variadic',X,'P01',[(F,"""        if self.variadic() {
            if parameters.is_empty() {
                write!(f, "...")?;
            } else if state.can_recurse() {
                write!(f, ", ...")?;
            }
        }""","""        if self.variadic() && state.can_recurse() {
            write!(f, ", ...")?;
        }""")]),
('rev rooted',X,'P01',[(N,"if state.can_recurse() || self.scopes().is_empty() {","if state.can_recurse() {"),(N,"        } else {\n            write!(f, \"…::","        } else if !self.scopes().is_empty() {\n            write!(f, \"…::")]),
]
