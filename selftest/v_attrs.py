IDS=['C27','C28','C29']
G='src/attributes/generate.rs'; M='src/attributes/mod.rs'; D='into-attr-derive/src/lib.rs'
EN='''                 pub fn $name(elem:$name) -> Attribute {
                      elem.into_attr()
                  }'''
S1='''                 pub fn $name(elem:$ty) -> Attribute {
                     $name(elem).into_attr()
                  }'''
DE='''                        let v = format!("{:?}",self);
                        let v =  v.as_str().strip_suffix("_").unwrap_or(v.as_str());
                        attr!(#name_str,v)'''
DS='                 attr!(#name_str,self.0)'
FM='                f.write_str(format!("{:?}",self).as_str())'
MS='''            id!(format!("{},{}", horizontal, vertical)),'''
V=[
('base','quiet',[]),
('r-fn','quiet',[(G,S1,'''                 pub fn $name(elem:$ty) -> Attribute {
                     let a = $name(elem);
                     IntoAttribute::into_attr(a)
                  }''')]),
('r-direct','quiet',[(G,S1,'''                 pub fn $name(elem:$ty) -> Attribute {
                     let name = stringify!($name); attr!(name, elem)
                  }''')]),
('r-display','quiet',[(G,FM,'                write!(f, "{:?}", self)')]),
('r-display2','quiet',[(G,FM,'                std::fmt::Debug::fmt(self, f)')]),
('r-margin','quiet',[(M,MS,'''            Id::Plain([horizontal.to_string(), vertical.to_string()].join(",")),''')]),
('r-margin2','quiet',[(M,MS,'''            {
                let mut text = horizontal.to_string();
                text.push(',');
                text += &vertical.to_string();
                Id::Plain(text)
            },''')]),
('r-defconst','quiet',[(M,'struct sides for NodeAttributes; i32;4)','struct sides for NodeAttributes; i32;2 + 2)'),(M,'f32; 1.0);\n','f32; 1.);\n')]),
('r-strim','quiet',[(D,DE,'''                        let text = format!("{:?}",self);
                        let word = match text.strip_suffix('_') { Some(w) => w, None => &text };
                        attr!(#name_str,word)''')]),
('r-endswith','quiet',[(D,DE,'''                        let mut v = format!("{:?}",self);
                        if v.ends_with('_') { v.pop(); }
                        attr!(#name_str,v)''')]),
('r-attrib','quiet',[(D,DS,'                 Attribute(Id::Plain(String::from(#name_str)), Id::Plain(self.0.to_string()))')]),
('r-table','quiet',[(D,'        Data::Enum(de) => {','''        Data::Enum(de) => {
            let (idents, words): (Vec<_>, Vec<_>) = de.variants.iter().map(|v| {
                let w = v.ident.unraw().to_string();
                let w = w.strip_suffix("_").unwrap_or(w.as_str()).to_string();
                (v.ident.clone(), w)
            }).unzip();'''),(D,DE,'''                        let v = match self { #( #name::#idents => #words, )* };
                        attr!(#name_str,v)''')]),
('r-quote','quiet',[(M,'''            id!(format!("{},{}", horizontal, vertical)),''','''            id!(esc format!("{},{}", horizontal, vertical)),''')]),
('m-struct-debug','C28',[(D,DS,'                 attr!(#name_str,format!("{:?}",self.0))')]),
('m-trimend','C28',[(D,DE,DE.replace('strip_suffix("_").unwrap_or(v.as_str())',"trim_end_matches('_')"))]),
('m-trim','C28',[(D,DE,DE.replace('strip_suffix("_").unwrap_or(v.as_str())',"trim_matches('_')"))]),
('m-replace','C28',[(D,DE,DE.replace('let v =  v.as_str().strip_suffix("_").unwrap_or(v.as_str());','let v = v.replace("_","");'))]),
('m-lower','C28',[(D,'name.unraw().to_string()','name.unraw().to_string().to_lowercase()')]),
('m-nounraw','C28',[(D,'name.unraw().to_string()','name.to_string()')]),
('m-trimname','C28',[(D,'name.unraw().to_string()',"name.unraw().to_string().trim_start_matches('_').to_string()")]),
('m-margin-swap','C27',[(M,MS,MS.replace('horizontal, vertical','vertical, horizontal'))]),
('m-margin-name','C27',[(M,'id!("margin")','id!("pad")')]),
('m-margin-prec','C27',[(M,MS,MS.replace('{},{}','{:.1},{}'))]),
('m-display-debug','C27',[(G,FM,'                f.write_str(format!("{:?}",self).to_lowercase().trim_end_matches(char::is_numeric))')]),
('m-round','C27',[(G,S1,'''                 pub fn $name(elem:$ty) -> Attribute {
                     Attribute(Id::Plain(stringify!($name).to_string()), id!(format!("{:?}", elem)))
                  }''')]),
('m-name','C29',[(M,'generate_attr!(struct headtooltip','generate_attr!(struct headtoolip')],['C29']),
('m-carrier','C29',[(M,'struct lhead for EdgeAttributes','struct lhead for GraphAttributes')]),
('m-word','C29',[(M,'quadtree for GraphAttributes; normal,fast,none','quadtree for GraphAttributes; normal,quick,none')]),
('m-word2','C29',[(M,'underline,cylinder,note','underline,cilinder,note')]),
('m-color','C29',[(M,'mediumvioletred,midnightblue','mediumvioletred,midnight_blue')]),
('m-default','C29',[(M,'struct ranksep for GraphAttributes; f32;0.5','struct ranksep for GraphAttributes; f32;0.05')]),
('m-default2','C29',[(M,'BL,BR,TL,TR,RB,RT,LB,LT;BL','BL,BR,TL,TR,RB,RT,LB,LT;TL')]),
('m-default3','C29',[(M,'struct concentrate for GraphAttributes;bool;false','struct concentrate for GraphAttributes;bool;true')]),
('m-defid','C29',[(M,'"\\"UTF-8\\""','"UTF-8"')]),
('m-enumdbg','C27',[(G,'''    (enum $name:tt for $($owners:tt),+; $($values:tt),+;$default:tt ) =>{
         as_item! {
             #[derive(Debug,PartialEq, IntoAttribute)]
             pub enum $name { $($values),+ }
         }
''','''    (enum $name:tt for $($owners:tt),+; $($values:tt),+;$default:tt ) =>{
         as_item! {
             #[derive(Debug,PartialEq)]
             pub enum $name { $($values),+ }
         }
         impl IntoAttribute for $name {
             fn into_attr(self) -> Attribute {
                 Attribute(Id::Plain(stringify!($name).to_string()), id!(format!("{:?}", self)))
             }
         }
''')]),
('m-enumdefault','C27',[(G,EN+'''
             }
         )+


   };''','''                 pub fn $name(elem:$name) -> Attribute {
                      if elem == $name::default() { return Attribute(Id::Plain(stringify!($name).to_string()), id!("")); }
                      elem.into_attr()
                  }
             }
         )+


   };''')]),
]
