// Golden FoLiA vocabulary, frozen; the harness never regenerates it.
use folia::{ElementType as ET,AnnotationType as AT,ElementGroup as EG,AttribType as AA};

#[derive(Clone,Copy,PartialEq,Debug)] pub enum Acc { T(ET), G(EG) }
pub struct V { pub et:ET, pub name:&'static str, pub tag:&'static str, pub parses_as:Option<ET>, pub at:Option<AT>, pub xmltag:&'static str, pub propat:Option<AT>, pub groups:&'static [EG], pub acc:&'static [Acc], pub reqdata:&'static [Acc], pub reqattr:&'static [AA], pub optattr:&'static [AA], pub occ:u32, pub occset:u32, pub delim:Option<&'static str>, pub printable:bool, pub speakable:bool, pub hidden:bool, pub xlink:bool, pub tc:bool, pub pc:bool, pub subset:Option<&'static str>, pub auth:bool, pub primary:bool, pub autoid:bool, pub setonly:bool, pub wrefable:bool, pub label:&'static str }
pub struct A { pub at:AT, pub name:&'static str, pub s:&'static str, pub element:ET, pub element_str:&'static str, pub layer:Option<ET> }
pub static ELEMENTS: &[V] = &[
V{et:ET::ActorFeature,name:"ActorFeature",tag:"actor",parses_as:Some(ET::ActorFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("actor"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::Alternative,name:"Alternative",tag:"alt",parses_as:Some(ET::Alternative),at:Some(AT::ALTERNATIVE),xmltag:"alt",propat:Some(AT::ALTERNATIVE),groups:&[EG::HigherOrder],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::MorphologyLayer),Acc::T(ET::PhonologyLayer)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:false,primary:true,autoid:false,setonly:false,wrefable:false,label:"Alternative"},
V{et:ET::AlternativeLayers,name:"AlternativeLayers",tag:"altlayers",parses_as:Some(ET::AlternativeLayers),at:Some(AT::ALTERNATIVE),xmltag:"altlayers",propat:Some(AT::ALTERNATIVE),groups:&[EG::HigherOrder],acc:&[Acc::G(EG::Layer),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::ForeignData)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:false,primary:false,autoid:false,setonly:false,wrefable:false,label:"Alternative Layers"},
V{et:ET::BegindatetimeFeature,name:"BegindatetimeFeature",tag:"begindatetime",parses_as:Some(ET::BegindatetimeFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("begindatetime"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::Caption,name:"Caption",tag:"caption",parses_as:Some(ET::Caption),at:None,xmltag:"caption",propat:None,groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Linebreak),Acc::T(ET::Metric),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Quote),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::TextContent),Acc::T(ET::Whitespace)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:1,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Caption"},
V{et:ET::Cell,name:"Cell",tag:"cell",parses_as:Some(ET::Cell),at:None,xmltag:"cell",propat:None,groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Entry),Acc::T(ET::Event),Acc::T(ET::Example),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::Figure),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Head),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::List),Acc::T(ET::Metric),Acc::T(ET::Note),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::Quote),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::TextContent),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(" | "),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Cell"},
V{et:ET::Chunk,name:"Chunk",tag:"chunk",parses_as:Some(ET::Chunk),at:Some(AT::CHUNKING),xmltag:"chunk",propat:Some(AT::CHUNKING),groups:&[EG::Span],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Chunk"},
V{et:ET::ChunkingLayer,name:"ChunkingLayer",tag:"chunking",parses_as:Some(ET::ChunkingLayer),at:Some(AT::CHUNKING),xmltag:"chunking",propat:Some(AT::CHUNKING),groups:&[EG::Layer],acc:&[Acc::T(ET::Chunk),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::Comment,name:"Comment",tag:"comment",parses_as:Some(ET::Comment),at:Some(AT::COMMENT),xmltag:"comment",propat:Some(AT::COMMENT),groups:&[EG::HigherOrder],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::CONFIDENCE,AA::DATETIME,AA::ID,AA::METADATA,AA::N,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Comment"},
V{et:ET::Content,name:"Content",tag:"content",parses_as:Some(ET::Content),at:Some(AT::RAWCONTENT),xmltag:"content",propat:Some(AT::RAWCONTENT),groups:&[EG::Content],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::METADATA,AA::TAG],occ:1,occset:0,delim:None,printable:true,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Raw Content"},
V{et:ET::CoreferenceChain,name:"CoreferenceChain",tag:"coreferencechain",parses_as:Some(ET::CoreferenceChain),at:Some(AT::COREFERENCE),xmltag:"coreferencechain",propat:Some(AT::COREFERENCE),groups:&[EG::Span],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::CoreferenceLink),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation)],reqdata:&[Acc::T(ET::CoreferenceLink)],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Coreference Chain"},
V{et:ET::CoreferenceLayer,name:"CoreferenceLayer",tag:"coreferences",parses_as:Some(ET::CoreferenceLayer),at:Some(AT::COREFERENCE),xmltag:"coreferences",propat:Some(AT::COREFERENCE),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::CoreferenceChain),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::CoreferenceLink,name:"CoreferenceLink",tag:"coreferencelink",parses_as:Some(ET::CoreferenceLink),at:Some(AT::COREFERENCE),xmltag:"coreferencelink",propat:Some(AT::COREFERENCE),groups:&[EG::SpanRole],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Headspan),Acc::T(ET::LevelFeature),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::ModalityFeature),Acc::T(ET::Relation),Acc::T(ET::TimeFeature),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:"Coreference Link"},
V{et:ET::Correction,name:"Correction",tag:"correction",parses_as:Some(ET::Correction),at:Some(AT::CORRECTION),xmltag:"correction",propat:Some(AT::CORRECTION),groups:&[EG::HigherOrder],acc:&[Acc::T(ET::Comment),Acc::T(ET::Current),Acc::T(ET::Description),Acc::T(ET::ErrorDetection),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::New),Acc::T(ET::Original),Acc::T(ET::Suggestion)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Correction"},
V{et:ET::Cue,name:"Cue",tag:"cue",parses_as:Some(ET::Cue),at:None,xmltag:"cue",propat:None,groups:&[EG::SpanRole],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:1,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:"Cue"},
V{et:ET::Current,name:"Current",tag:"current",parses_as:Some(ET::Current),at:Some(AT::CORRECTION),xmltag:"current",propat:Some(AT::CORRECTION),groups:&[EG::CorrectionChild],acc:&[Acc::G(EG::Inline),Acc::G(EG::Span),Acc::G(EG::Structure),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::PhonContent),Acc::T(ET::String),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::CONFIDENCE,AA::DATETIME,AA::ID,AA::N,AA::TAG],occ:1,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::Definition,name:"Definition",tag:"def",parses_as:Some(ET::Definition),at:Some(AT::DEFINITION),xmltag:"def",propat:Some(AT::DEFINITION),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::Figure),Acc::T(ET::ForeignData),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::List),Acc::T(ET::Metric),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::Table),Acc::T(ET::TextContent),Acc::T(ET::Utterance),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Definition"},
V{et:ET::DependenciesLayer,name:"DependenciesLayer",tag:"dependencies",parses_as:Some(ET::DependenciesLayer),at:Some(AT::DEPENDENCY),xmltag:"dependencies",propat:Some(AT::DEPENDENCY),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Dependency),Acc::T(ET::Description),Acc::T(ET::ForeignData)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::Dependency,name:"Dependency",tag:"dependency",parses_as:Some(ET::Dependency),at:Some(AT::DEPENDENCY),xmltag:"dependency",propat:Some(AT::DEPENDENCY),groups:&[EG::Span],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::DependencyDependent),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Headspan),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation)],reqdata:&[Acc::T(ET::DependencyDependent),Acc::T(ET::Headspan)],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Dependency"},
V{et:ET::DependencyDependent,name:"DependencyDependent",tag:"dep",parses_as:Some(ET::DependencyDependent),at:None,xmltag:"dep",propat:None,groups:&[EG::SpanRole],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:1,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:"Dependent"},
V{et:ET::Description,name:"Description",tag:"desc",parses_as:Some(ET::Description),at:Some(AT::DESCRIPTION),xmltag:"desc",propat:Some(AT::DESCRIPTION),groups:&[EG::HigherOrder],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::CONFIDENCE,AA::DATETIME,AA::ID,AA::METADATA,AA::N,AA::TAG],occ:1,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Description"},
V{et:ET::Division,name:"Division",tag:"div",parses_as:Some(ET::Division),at:Some(AT::DIVISION),xmltag:"div",propat:Some(AT::DIVISION),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Division),Acc::T(ET::Entry),Acc::T(ET::Event),Acc::T(ET::Example),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::Figure),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Head),Acc::T(ET::Linebreak),Acc::T(ET::List),Acc::T(ET::Metric),Acc::T(ET::Note),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Quote),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::Table),Acc::T(ET::TextContent),Acc::T(ET::Utterance),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Division"},
V{et:ET::DomainAnnotation,name:"DomainAnnotation",tag:"domain",parses_as:Some(ET::DomainAnnotation),at:Some(AT::DOMAIN),xmltag:"domain",propat:Some(AT::DOMAIN),groups:&[EG::Inline],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric)],reqdata:&[],reqattr:&[AA::CLASS],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Domain"},
V{et:ET::EnddatetimeFeature,name:"EnddatetimeFeature",tag:"enddatetime",parses_as:Some(ET::EnddatetimeFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("enddatetime"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::EntitiesLayer,name:"EntitiesLayer",tag:"entities",parses_as:Some(ET::EntitiesLayer),at:Some(AT::ENTITY),xmltag:"entities",propat:Some(AT::ENTITY),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Entity),Acc::T(ET::ForeignData)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::Entity,name:"Entity",tag:"entity",parses_as:Some(ET::Entity),at:Some(AT::ENTITY),xmltag:"entity",propat:Some(AT::ENTITY),groups:&[EG::Span],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Entity"},
V{et:ET::Entry,name:"Entry",tag:"entry",parses_as:Some(ET::Entry),at:Some(AT::ENTRY),xmltag:"entry",propat:Some(AT::ENTRY),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Definition),Acc::T(ET::Description),Acc::T(ET::Example),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::Part),Acc::T(ET::Relation),Acc::T(ET::String),Acc::T(ET::Term),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Entry"},
V{et:ET::ErrorDetection,name:"ErrorDetection",tag:"errordetection",parses_as:Some(ET::ErrorDetection),at:Some(AT::ERRORDETECTION),xmltag:"errordetection",propat:Some(AT::ERRORDETECTION),groups:&[EG::Inline],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric)],reqdata:&[],reqattr:&[AA::CLASS],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Error Detection"},
V{et:ET::Event,name:"Event",tag:"event",parses_as:Some(ET::Event),at:Some(AT::EVENT),xmltag:"event",propat:Some(AT::EVENT),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::ActorFeature),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::BegindatetimeFeature),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Division),Acc::T(ET::EnddatetimeFeature),Acc::T(ET::Entry),Acc::T(ET::Event),Acc::T(ET::Example),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::Figure),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Head),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::List),Acc::T(ET::Metric),Acc::T(ET::Note),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Quote),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::Table),Acc::T(ET::TextContent),Acc::T(ET::Utterance),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Event"},
V{et:ET::Example,name:"Example",tag:"ex",parses_as:Some(ET::Example),at:Some(AT::EXAMPLE),xmltag:"ex",propat:Some(AT::EXAMPLE),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::Figure),Acc::T(ET::ForeignData),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::List),Acc::T(ET::Metric),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::Table),Acc::T(ET::TextContent),Acc::T(ET::Utterance),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Example"},
V{et:ET::External,name:"External",tag:"external",parses_as:Some(ET::External),at:Some(AT::EXTERNAL),xmltag:"external",propat:Some(AT::EXTERNAL),groups:&[EG::HigherOrder],acc:&[],reqdata:&[],reqattr:&[AA::SRC],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::TAG],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"External"},
V{et:ET::Feature,name:"Feature",tag:"feat",parses_as:Some(ET::Feature),at:None,xmltag:"feat",propat:None,groups:&[EG::HigherOrder],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::Figure,name:"Figure",tag:"figure",parses_as:Some(ET::Figure),at:Some(AT::FIGURE),xmltag:"figure",propat:Some(AT::FIGURE),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Caption),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Linebreak),Acc::T(ET::Metric),Acc::T(ET::Part),Acc::T(ET::Relation),Acc::T(ET::String),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Figure"},
V{et:ET::FontFeature,name:"FontFeature",tag:"font",parses_as:Some(ET::FontFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("font"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::ForeignData,name:"ForeignData",tag:"foreign-data",parses_as:Some(ET::ForeignData),at:None,xmltag:"foreign-data",propat:None,groups:&[EG::HigherOrder],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::FunctionFeature,name:"FunctionFeature",tag:"function",parses_as:Some(ET::FunctionFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("function"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::Gap,name:"Gap",tag:"gap",parses_as:Some(ET::Gap),at:Some(AT::GAP),xmltag:"gap",propat:Some(AT::GAP),groups:&[EG::HigherOrder],acc:&[Acc::T(ET::Comment),Acc::T(ET::Content),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::Part)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SRC,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Gap"},
V{et:ET::Head,name:"Head",tag:"head",parses_as:Some(ET::Head),at:Some(AT::HEAD),xmltag:"head",propat:Some(AT::HEAD),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Event),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::Metric),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::TextContent),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Head"},
V{et:ET::HeadFeature,name:"HeadFeature",tag:"headfeature",parses_as:Some(ET::HeadFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("head"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::Headspan,name:"Headspan",tag:"hd",parses_as:Some(ET::Headspan),at:None,xmltag:"hd",propat:None,groups:&[EG::SpanRole],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:1,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:"Head"},
V{et:ET::Hiddenword,name:"Hiddenword",tag:"hiddenw",parses_as:Some(ET::Hiddenword),at:Some(AT::HIDDENTOKEN),xmltag:"hiddenw",propat:Some(AT::HIDDENTOKEN),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::String),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:Some(" "),printable:true,speakable:true,hidden:true,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:true,label:"Hidden Word/Token"},
V{et:ET::Hyphbreak,name:"Hyphbreak",tag:"t-hbr",parses_as:Some(ET::Hyphbreak),at:Some(AT::HYPHENATION),xmltag:"t-hbr",propat:Some(AT::HYPHENATION),groups:&[EG::TextMarkup],acc:&[Acc::G(EG::TextMarkup),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::Linebreak)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:false,hidden:false,xlink:true,tc:true,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:"Hyphbreak"},
V{et:ET::Label,name:"Label",tag:"label",parses_as:Some(ET::Label),at:None,xmltag:"label",propat:None,groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::Metric),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::String),Acc::T(ET::TextContent),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Label"},
V{et:ET::LangAnnotation,name:"LangAnnotation",tag:"lang",parses_as:Some(ET::LangAnnotation),at:Some(AT::LANG),xmltag:"lang",propat:Some(AT::LANG),groups:&[EG::Inline],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric)],reqdata:&[],reqattr:&[AA::CLASS],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:1,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Language"},
V{et:ET::LemmaAnnotation,name:"LemmaAnnotation",tag:"lemma",parses_as:Some(ET::LemmaAnnotation),at:Some(AT::LEMMA),xmltag:"lemma",propat:Some(AT::LEMMA),groups:&[EG::Inline],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric)],reqdata:&[],reqattr:&[AA::CLASS],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:1,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Lemma"},
V{et:ET::LevelFeature,name:"LevelFeature",tag:"level",parses_as:Some(ET::LevelFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("level"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::Linebreak,name:"Linebreak",tag:"br",parses_as:Some(ET::Linebreak),at:Some(AT::LINEBREAK),xmltag:"br",propat:Some(AT::LINEBREAK),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::Part),Acc::T(ET::Relation)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:true,hidden:false,xlink:true,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Linebreak"},
V{et:ET::LinkReference,name:"LinkReference",tag:"xref",parses_as:Some(ET::LinkReference),at:None,xmltag:"xref",propat:None,groups:&[],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[AA::IDREF,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::List,name:"List",tag:"list",parses_as:Some(ET::List),at:Some(AT::LIST),xmltag:"list",propat:Some(AT::LIST),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Caption),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Event),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Linebreak),Acc::T(ET::ListItem),Acc::T(ET::Metric),Acc::T(ET::Note),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::String),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"List"},
V{et:ET::ListItem,name:"ListItem",tag:"item",parses_as:Some(ET::ListItem),at:None,xmltag:"item",propat:None,groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Event),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Hiddenword),Acc::T(ET::Label),Acc::T(ET::Linebreak),Acc::T(ET::List),Acc::T(ET::Metric),Acc::T(ET::Note),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Quote),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::TextContent),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"List Item"},
V{et:ET::Metric,name:"Metric",tag:"metric",parses_as:Some(ET::Metric),at:Some(AT::METRIC),xmltag:"metric",propat:Some(AT::METRIC),groups:&[EG::HigherOrder],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::ValueFeature)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Metric"},
V{et:ET::ModalitiesLayer,name:"ModalitiesLayer",tag:"modalities",parses_as:Some(ET::ModalitiesLayer),at:Some(AT::MODALITY),xmltag:"modalities",propat:Some(AT::MODALITY),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::Modality)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::Modality,name:"Modality",tag:"modality",parses_as:Some(ET::Modality),at:Some(AT::MODALITY),xmltag:"modality",propat:Some(AT::MODALITY),groups:&[EG::Span],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Cue),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::PolarityFeature),Acc::T(ET::Relation),Acc::T(ET::Scope),Acc::T(ET::Source),Acc::T(ET::StrengthFeature),Acc::T(ET::Target)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Modality"},
V{et:ET::ModalityFeature,name:"ModalityFeature",tag:"mod",parses_as:Some(ET::ModalityFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("mod"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::Morpheme,name:"Morpheme",tag:"morpheme",parses_as:Some(ET::Morpheme),at:Some(AT::MORPHOLOGICAL),xmltag:"morpheme",propat:Some(AT::MORPHOLOGICAL),groups:&[EG::Subtoken],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::FunctionFeature),Acc::T(ET::Metric),Acc::T(ET::Morpheme),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Relation),Acc::T(ET::String),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:true,label:"Morpheme"},
V{et:ET::MorphologyLayer,name:"MorphologyLayer",tag:"morphology",parses_as:Some(ET::MorphologyLayer),at:Some(AT::MORPHOLOGICAL),xmltag:"morphology",propat:Some(AT::MORPHOLOGICAL),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::Morpheme)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::New,name:"New",tag:"new",parses_as:Some(ET::New),at:Some(AT::CORRECTION),xmltag:"new",propat:Some(AT::CORRECTION),groups:&[EG::CorrectionChild],acc:&[Acc::G(EG::Inline),Acc::G(EG::Span),Acc::G(EG::Structure),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::PhonContent),Acc::T(ET::String),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::CONFIDENCE,AA::DATETIME,AA::ID,AA::N,AA::TAG],occ:1,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::Note,name:"Note",tag:"note",parses_as:Some(ET::Note),at:Some(AT::NOTE),xmltag:"note",propat:Some(AT::NOTE),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Example),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::Figure),Acc::T(ET::ForeignData),Acc::T(ET::Head),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::List),Acc::T(ET::Metric),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::Table),Acc::T(ET::TextContent),Acc::T(ET::Utterance),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Note"},
V{et:ET::Observation,name:"Observation",tag:"observation",parses_as:Some(ET::Observation),at:Some(AT::OBSERVATION),xmltag:"observation",propat:Some(AT::OBSERVATION),groups:&[EG::Span],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Observation"},
V{et:ET::ObservationLayer,name:"ObservationLayer",tag:"observations",parses_as:Some(ET::ObservationLayer),at:Some(AT::OBSERVATION),xmltag:"observations",propat:Some(AT::OBSERVATION),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::Observation)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::Original,name:"Original",tag:"original",parses_as:Some(ET::Original),at:Some(AT::CORRECTION),xmltag:"original",propat:Some(AT::CORRECTION),groups:&[EG::CorrectionChild],acc:&[Acc::G(EG::Inline),Acc::G(EG::Span),Acc::G(EG::Structure),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::PhonContent),Acc::T(ET::String),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::CONFIDENCE,AA::DATETIME,AA::ID,AA::N,AA::TAG],occ:1,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:false,primary:false,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::Paragraph,name:"Paragraph",tag:"p",parses_as:Some(ET::Paragraph),at:Some(AT::PARAGRAPH),xmltag:"p",propat:Some(AT::PARAGRAPH),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Entry),Acc::T(ET::Event),Acc::T(ET::Example),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::Figure),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Head),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::List),Acc::T(ET::Metric),Acc::T(ET::Note),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Quote),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::TextContent),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Paragraph"},
V{et:ET::Part,name:"Part",tag:"part",parses_as:Some(ET::Part),at:Some(AT::PART),xmltag:"part",propat:Some(AT::PART),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::G(EG::Structure),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Relation),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(" "),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Part"},
V{et:ET::PhonContent,name:"PhonContent",tag:"ph",parses_as:Some(ET::PhonContent),at:Some(AT::PHON),xmltag:"ph",propat:Some(AT::PHON),groups:&[EG::Content],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::METADATA,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:true,hidden:false,xlink:false,tc:false,pc:true,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Phonetic Content"},
V{et:ET::Phoneme,name:"Phoneme",tag:"phoneme",parses_as:Some(ET::Phoneme),at:Some(AT::PHONOLOGICAL),xmltag:"phoneme",propat:Some(AT::PHONOLOGICAL),groups:&[EG::Subtoken],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::FunctionFeature),Acc::T(ET::Metric),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Phoneme),Acc::T(ET::Relation),Acc::T(ET::String),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:true,label:"Phoneme"},
V{et:ET::PhonologyLayer,name:"PhonologyLayer",tag:"phonology",parses_as:Some(ET::PhonologyLayer),at:Some(AT::PHONOLOGICAL),xmltag:"phonology",propat:Some(AT::PHONOLOGICAL),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::Phoneme)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::PolarityFeature,name:"PolarityFeature",tag:"polarity",parses_as:Some(ET::PolarityFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("polarity"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::PosAnnotation,name:"PosAnnotation",tag:"pos",parses_as:Some(ET::PosAnnotation),at:Some(AT::POS),xmltag:"pos",propat:Some(AT::POS),groups:&[EG::Inline],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::HeadFeature),Acc::T(ET::Metric)],reqdata:&[],reqattr:&[AA::CLASS],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:1,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Part-of-Speech"},
V{et:ET::Predicate,name:"Predicate",tag:"predicate",parses_as:Some(ET::Predicate),at:Some(AT::PREDICATE),xmltag:"predicate",propat:Some(AT::PREDICATE),groups:&[EG::Span],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::SemanticRole),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Predicate"},
V{et:ET::Quote,name:"Quote",tag:"quote",parses_as:Some(ET::Quote),at:Some(AT::QUOTE),xmltag:"quote",propat:Some(AT::QUOTE),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Division),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::Metric),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::Quote),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::TextContent),Acc::T(ET::Utterance),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Quote"},
V{et:ET::Reference,name:"Reference",tag:"ref",parses_as:Some(ET::Reference),at:Some(AT::REFERENCE),xmltag:"ref",propat:Some(AT::REFERENCE),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::Metric),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Quote),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::TextContent),Acc::T(ET::Utterance),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(" "),printable:true,speakable:true,hidden:false,xlink:true,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Reference"},
V{et:ET::Relation,name:"Relation",tag:"relation",parses_as:Some(ET::Relation),at:Some(AT::RELATION),xmltag:"relation",propat:Some(AT::RELATION),groups:&[EG::HigherOrder],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:true,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Relation"},
V{et:ET::Row,name:"Row",tag:"row",parses_as:Some(ET::Row),at:None,xmltag:"row",propat:None,groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Cell),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::Part),Acc::T(ET::Relation)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Table Row"},
V{et:ET::Scope,name:"Scope",tag:"scope",parses_as:Some(ET::Scope),at:None,xmltag:"scope",propat:None,groups:&[EG::SpanRole],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Cue),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::Source),Acc::T(ET::Target),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:1,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:"Scope"},
V{et:ET::SemanticRole,name:"SemanticRole",tag:"semrole",parses_as:Some(ET::SemanticRole),at:Some(AT::SEMROLE),xmltag:"semrole",propat:Some(AT::SEMROLE),groups:&[EG::Span],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Headspan),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[AA::CLASS],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Semantic Role"},
V{et:ET::SemanticRolesLayer,name:"SemanticRolesLayer",tag:"semroles",parses_as:Some(ET::SemanticRolesLayer),at:Some(AT::SEMROLE),xmltag:"semroles",propat:Some(AT::SEMROLE),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::Predicate),Acc::T(ET::SemanticRole)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::SenseAnnotation,name:"SenseAnnotation",tag:"sense",parses_as:Some(ET::SenseAnnotation),at:Some(AT::SENSE),xmltag:"sense",propat:Some(AT::SENSE),groups:&[EG::Inline],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::SynsetFeature)],reqdata:&[],reqattr:&[AA::CLASS],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Semantic Sense"},
V{et:ET::Sentence,name:"Sentence",tag:"s",parses_as:Some(ET::Sentence),at:Some(AT::SENTENCE),xmltag:"s",propat:Some(AT::SENTENCE),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Entry),Acc::T(ET::Event),Acc::T(ET::Example),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::Metric),Acc::T(ET::Note),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Quote),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::String),Acc::T(ET::TextContent),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(" "),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Sentence"},
V{et:ET::Sentiment,name:"Sentiment",tag:"sentiment",parses_as:Some(ET::Sentiment),at:Some(AT::SENTIMENT),xmltag:"sentiment",propat:Some(AT::SENTIMENT),groups:&[EG::Span],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Headspan),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::PolarityFeature),Acc::T(ET::Relation),Acc::T(ET::Source),Acc::T(ET::StrengthFeature),Acc::T(ET::Target),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Sentiment"},
V{et:ET::SentimentLayer,name:"SentimentLayer",tag:"sentiments",parses_as:Some(ET::SentimentLayer),at:Some(AT::SENTIMENT),xmltag:"sentiments",propat:Some(AT::SENTIMENT),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::Sentiment)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::SizeFeature,name:"SizeFeature",tag:"size",parses_as:Some(ET::SizeFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("size"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::Source,name:"Source",tag:"source",parses_as:Some(ET::Source),at:None,xmltag:"source",propat:None,groups:&[EG::SpanRole],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:1,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:"Source"},
V{et:ET::SpanRelation,name:"SpanRelation",tag:"spanrelation",parses_as:Some(ET::SpanRelation),at:Some(AT::SPANRELATION),xmltag:"spanrelation",propat:Some(AT::SPANRELATION),groups:&[EG::HigherOrder],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::Relation)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Span Relation"},
V{et:ET::SpanRelationLayer,name:"SpanRelationLayer",tag:"spanrelations",parses_as:Some(ET::SpanRelationLayer),at:Some(AT::SPANRELATION),xmltag:"spanrelations",propat:Some(AT::SPANRELATION),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::SpanRelation)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::Speech,name:"Speech",tag:"speech",parses_as:Some(ET::Speech),at:None,xmltag:"speech",propat:None,groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Division),Acc::T(ET::Entry),Acc::T(ET::Event),Acc::T(ET::Example),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Hiddenword),Acc::T(ET::List),Acc::T(ET::Metric),Acc::T(ET::Note),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Quote),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::TextContent),Acc::T(ET::Utterance),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Speech Body"},
V{et:ET::Statement,name:"Statement",tag:"statement",parses_as:Some(ET::Statement),at:Some(AT::STATEMENT),xmltag:"statement",propat:Some(AT::STATEMENT),groups:&[EG::Span],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Headspan),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::Source),Acc::T(ET::StatementRelation),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Statement"},
V{et:ET::StatementLayer,name:"StatementLayer",tag:"statements",parses_as:Some(ET::StatementLayer),at:Some(AT::STATEMENT),xmltag:"statements",propat:Some(AT::STATEMENT),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::Statement)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::StatementRelation,name:"StatementRelation",tag:"rel",parses_as:Some(ET::StatementRelation),at:None,xmltag:"rel",propat:None,groups:&[EG::SpanRole],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:1,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:"Relation"},
V{et:ET::StrengthFeature,name:"StrengthFeature",tag:"strength",parses_as:Some(ET::StrengthFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("strength"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::String,name:"String",tag:"str",parses_as:Some(ET::String),at:Some(AT::STRING),xmltag:"str",propat:Some(AT::STRING),groups:&[EG::HigherOrder],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::PhonContent),Acc::T(ET::Relation),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SRC,AA::TAG],occ:0,occset:0,delim:None,printable:true,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"String"},
V{et:ET::StyleFeature,name:"StyleFeature",tag:"style",parses_as:Some(ET::StyleFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("style"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::SubjectivityAnnotation,name:"SubjectivityAnnotation",tag:"subjectivity",parses_as:Some(ET::SubjectivityAnnotation),at:Some(AT::SUBJECTIVITY),xmltag:"subjectivity",propat:Some(AT::SUBJECTIVITY),groups:&[EG::Inline],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric)],reqdata:&[],reqattr:&[AA::CLASS],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:1,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Subjectivity/Sentiment"},
V{et:ET::Suggestion,name:"Suggestion",tag:"suggestion",parses_as:Some(ET::Suggestion),at:Some(AT::CORRECTION),xmltag:"suggestion",propat:Some(AT::CORRECTION),groups:&[EG::CorrectionChild],acc:&[Acc::G(EG::Inline),Acc::G(EG::Span),Acc::G(EG::Structure),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::PhonContent),Acc::T(ET::String),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::CONFIDENCE,AA::DATETIME,AA::ID,AA::N,AA::TAG],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:false,primary:false,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::SynsetFeature,name:"SynsetFeature",tag:"synset",parses_as:Some(ET::SynsetFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("synset"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::SyntacticUnit,name:"SyntacticUnit",tag:"su",parses_as:Some(ET::SyntacticUnit),at:Some(AT::SYNTAX),xmltag:"su",propat:Some(AT::SYNTAX),groups:&[EG::Span],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::SyntacticUnit),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Syntactic Unit"},
V{et:ET::SyntaxLayer,name:"SyntaxLayer",tag:"syntax",parses_as:Some(ET::SyntaxLayer),at:Some(AT::SYNTAX),xmltag:"syntax",propat:Some(AT::SYNTAX),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::SyntacticUnit)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::Table,name:"Table",tag:"table",parses_as:Some(ET::Table),at:Some(AT::TABLE),xmltag:"table",propat:Some(AT::TABLE),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Linebreak),Acc::T(ET::Metric),Acc::T(ET::Part),Acc::T(ET::Relation),Acc::T(ET::Row),Acc::T(ET::TableHead)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Table"},
V{et:ET::TableHead,name:"TableHead",tag:"tablehead",parses_as:Some(ET::TableHead),at:None,xmltag:"tablehead",propat:None,groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::Part),Acc::T(ET::Relation),Acc::T(ET::Row)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Table Header"},
V{et:ET::Target,name:"Target",tag:"target",parses_as:Some(ET::Target),at:None,xmltag:"target",propat:None,groups:&[EG::SpanRole],acc:&[Acc::G(EG::Inline),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:1,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:"Target"},
V{et:ET::Term,name:"Term",tag:"term",parses_as:Some(ET::Term),at:Some(AT::TERM),xmltag:"term",propat:Some(AT::TERM),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Event),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::Figure),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::List),Acc::T(ET::Metric),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::Table),Acc::T(ET::TextContent),Acc::T(ET::Utterance),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Term"},
V{et:ET::Text,name:"Text",tag:"text",parses_as:Some(ET::Text),at:None,xmltag:"text",propat:None,groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::Division),Acc::T(ET::Entry),Acc::T(ET::Event),Acc::T(ET::Example),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::Figure),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Hiddenword),Acc::T(ET::Linebreak),Acc::T(ET::List),Acc::T(ET::Metric),Acc::T(ET::Note),Acc::T(ET::Paragraph),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Quote),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::Table),Acc::T(ET::TextContent),Acc::T(ET::Whitespace),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some("\n\n\n"),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Text Body"},
V{et:ET::TextContent,name:"TextContent",tag:"t",parses_as:Some(ET::TextContent),at:Some(AT::TEXT),xmltag:"t",propat:Some(AT::TEXT),groups:&[EG::Content],acc:&[Acc::G(EG::TextMarkup),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::Linebreak)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::METADATA,AA::TAG],occ:0,occset:0,delim:None,printable:true,speakable:false,hidden:false,xlink:true,tc:true,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Text"},
V{et:ET::TextMarkupCorrection,name:"TextMarkupCorrection",tag:"t-correction",parses_as:Some(ET::TextMarkupCorrection),at:Some(AT::CORRECTION),xmltag:"t-correction",propat:Some(AT::CORRECTION),groups:&[EG::TextMarkup],acc:&[Acc::G(EG::TextMarkup),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::Linebreak)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:false,hidden:false,xlink:true,tc:true,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::TextMarkupError,name:"TextMarkupError",tag:"t-error",parses_as:Some(ET::TextMarkupError),at:Some(AT::ERRORDETECTION),xmltag:"t-error",propat:Some(AT::ERRORDETECTION),groups:&[EG::TextMarkup],acc:&[Acc::G(EG::TextMarkup),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::Linebreak)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:false,hidden:false,xlink:true,tc:true,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::TextMarkupGap,name:"TextMarkupGap",tag:"t-gap",parses_as:Some(ET::TextMarkupGap),at:Some(AT::GAP),xmltag:"t-gap",propat:Some(AT::GAP),groups:&[EG::TextMarkup],acc:&[Acc::G(EG::TextMarkup),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::Linebreak)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:false,hidden:false,xlink:true,tc:true,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::TextMarkupHSpace,name:"TextMarkupHSpace",tag:"t-hspace",parses_as:Some(ET::TextMarkupHSpace),at:Some(AT::HSPACE),xmltag:"t-hspace",propat:Some(AT::HSPACE),groups:&[EG::TextMarkup],acc:&[Acc::G(EG::TextMarkup),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::Linebreak)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:false,hidden:false,xlink:true,tc:true,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::TextMarkupLanguage,name:"TextMarkupLanguage",tag:"t-lang",parses_as:Some(ET::TextMarkupLanguage),at:Some(AT::LANG),xmltag:"t-lang",propat:Some(AT::LANG),groups:&[EG::TextMarkup],acc:&[Acc::G(EG::TextMarkup),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::Linebreak)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:false,hidden:false,xlink:true,tc:true,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::TextMarkupReference,name:"TextMarkupReference",tag:"t-ref",parses_as:Some(ET::TextMarkupReference),at:Some(AT::REFERENCE),xmltag:"t-ref",propat:Some(AT::REFERENCE),groups:&[EG::TextMarkup],acc:&[Acc::G(EG::TextMarkup),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::Linebreak)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:false,hidden:false,xlink:true,tc:true,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::TextMarkupString,name:"TextMarkupString",tag:"t-str",parses_as:Some(ET::TextMarkupString),at:Some(AT::STRING),xmltag:"t-str",propat:Some(AT::STRING),groups:&[EG::TextMarkup],acc:&[Acc::G(EG::TextMarkup),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::Linebreak)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:false,hidden:false,xlink:true,tc:true,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::TextMarkupStyle,name:"TextMarkupStyle",tag:"t-style",parses_as:Some(ET::TextMarkupStyle),at:Some(AT::STYLE),xmltag:"t-style",propat:Some(AT::STYLE),groups:&[EG::TextMarkup],acc:&[Acc::G(EG::TextMarkup),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::FontFeature),Acc::T(ET::Linebreak),Acc::T(ET::SizeFeature)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:false,hidden:false,xlink:true,tc:true,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::TextMarkupWhitespace,name:"TextMarkupWhitespace",tag:"t-whitespace",parses_as:Some(ET::TextMarkupWhitespace),at:Some(AT::WHITESPACE),xmltag:"t-whitespace",propat:Some(AT::WHITESPACE),groups:&[EG::TextMarkup],acc:&[Acc::G(EG::TextMarkup),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::Feature),Acc::T(ET::Linebreak)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:false,hidden:false,xlink:true,tc:true,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:false,wrefable:false,label:""},
V{et:ET::TimeFeature,name:"TimeFeature",tag:"time",parses_as:Some(ET::TimeFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("time"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::TimeSegment,name:"TimeSegment",tag:"timesegment",parses_as:Some(ET::TimeSegment),at:Some(AT::TIMESEGMENT),xmltag:"timesegment",propat:Some(AT::TIMESEGMENT),groups:&[EG::Span],acc:&[Acc::G(EG::Inline),Acc::T(ET::ActorFeature),Acc::T(ET::BegindatetimeFeature),Acc::T(ET::Comment),Acc::T(ET::Description),Acc::T(ET::EnddatetimeFeature),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::LinkReference),Acc::T(ET::Metric),Acc::T(ET::Relation),Acc::T(ET::WordReference)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:None,printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Time Segment"},
V{et:ET::TimingLayer,name:"TimingLayer",tag:"timing",parses_as:Some(ET::TimingLayer),at:Some(AT::TIMESEGMENT),xmltag:"timing",propat:Some(AT::TIMESEGMENT),groups:&[EG::Layer],acc:&[Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::ForeignData),Acc::T(ET::TimeSegment)],reqdata:&[],reqattr:&[],optattr:&[AA::ID,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:false,autoid:false,setonly:true,wrefable:false,label:""},
V{et:ET::Utterance,name:"Utterance",tag:"utt",parses_as:Some(ET::Utterance),at:Some(AT::UTTERANCE),xmltag:"utt",propat:Some(AT::UTTERANCE),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Gap),Acc::T(ET::Hiddenword),Acc::T(ET::Metric),Acc::T(ET::Note),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Quote),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::Sentence),Acc::T(ET::String),Acc::T(ET::TextContent),Acc::T(ET::Word)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(" "),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Utterance"},
V{et:ET::ValueFeature,name:"ValueFeature",tag:"value",parses_as:Some(ET::ValueFeature),at:None,xmltag:"",propat:None,groups:&[EG::Feature],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:Some("value"),auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:"Feature"},
V{et:ET::Whitespace,name:"Whitespace",tag:"whitespace",parses_as:Some(ET::Whitespace),at:Some(AT::WHITESPACE),xmltag:"whitespace",propat:Some(AT::WHITESPACE),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::Part),Acc::T(ET::Relation)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG],occ:0,occset:0,delim:Some(""),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:false,label:"Whitespace"},
V{et:ET::Word,name:"Word",tag:"w",parses_as:Some(ET::Word),at:Some(AT::TOKEN),xmltag:"w",propat:Some(AT::TOKEN),groups:&[EG::Structure],acc:&[Acc::G(EG::Layer),Acc::G(EG::Inline),Acc::T(ET::Alternative),Acc::T(ET::AlternativeLayers),Acc::T(ET::Comment),Acc::T(ET::Correction),Acc::T(ET::Description),Acc::T(ET::External),Acc::T(ET::Feature),Acc::T(ET::ForeignData),Acc::T(ET::Metric),Acc::T(ET::Part),Acc::T(ET::PhonContent),Acc::T(ET::Reference),Acc::T(ET::Relation),Acc::T(ET::String),Acc::T(ET::TextContent)],reqdata:&[],reqattr:&[],optattr:&[AA::ANNOTATOR,AA::BEGINTIME,AA::CLASS,AA::CONFIDENCE,AA::DATETIME,AA::ENDTIME,AA::ID,AA::METADATA,AA::N,AA::SPACE,AA::SPEAKER,AA::SRC,AA::TAG,AA::TEXTCLASS],occ:0,occset:0,delim:Some(" "),printable:true,speakable:true,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:true,setonly:false,wrefable:true,label:"Word/Token"},
V{et:ET::WordReference,name:"WordReference",tag:"wref",parses_as:Some(ET::WordReference),at:None,xmltag:"wref",propat:None,groups:&[],acc:&[Acc::T(ET::Comment),Acc::T(ET::Description)],reqdata:&[],reqattr:&[],optattr:&[AA::IDREF,AA::TAG],occ:0,occset:0,delim:None,printable:false,speakable:false,hidden:false,xlink:false,tc:false,pc:false,subset:None,auth:true,primary:true,autoid:false,setonly:false,wrefable:false,label:""},
];
pub static ANNOTATIONS: &[A] = &[
A{at:AT::TEXT,name:"TEXT",s:"text",element:ET::TextContent,element_str:"t",layer:None},
A{at:AT::TOKEN,name:"TOKEN",s:"token",element:ET::Word,element_str:"w",layer:None},
A{at:AT::DIVISION,name:"DIVISION",s:"division",element:ET::Division,element_str:"div",layer:None},
A{at:AT::PARAGRAPH,name:"PARAGRAPH",s:"paragraph",element:ET::Paragraph,element_str:"p",layer:None},
A{at:AT::HEAD,name:"HEAD",s:"head",element:ET::Head,element_str:"head",layer:None},
A{at:AT::LIST,name:"LIST",s:"list",element:ET::List,element_str:"list",layer:None},
A{at:AT::FIGURE,name:"FIGURE",s:"figure",element:ET::Figure,element_str:"figure",layer:None},
A{at:AT::WHITESPACE,name:"WHITESPACE",s:"whitespace",element:ET::Whitespace,element_str:"whitespace",layer:None},
A{at:AT::LINEBREAK,name:"LINEBREAK",s:"linebreak",element:ET::Linebreak,element_str:"br",layer:None},
A{at:AT::SENTENCE,name:"SENTENCE",s:"sentence",element:ET::Sentence,element_str:"s",layer:None},
A{at:AT::POS,name:"POS",s:"pos",element:ET::PosAnnotation,element_str:"pos",layer:None},
A{at:AT::LEMMA,name:"LEMMA",s:"lemma",element:ET::LemmaAnnotation,element_str:"lemma",layer:None},
A{at:AT::DOMAIN,name:"DOMAIN",s:"domain",element:ET::DomainAnnotation,element_str:"domain",layer:None},
A{at:AT::SENSE,name:"SENSE",s:"sense",element:ET::SenseAnnotation,element_str:"sense",layer:None},
A{at:AT::SYNTAX,name:"SYNTAX",s:"syntax",element:ET::SyntacticUnit,element_str:"su",layer:Some(ET::SyntaxLayer)},
A{at:AT::CHUNKING,name:"CHUNKING",s:"chunking",element:ET::Chunk,element_str:"chunk",layer:Some(ET::ChunkingLayer)},
A{at:AT::ENTITY,name:"ENTITY",s:"entity",element:ET::Entity,element_str:"entity",layer:Some(ET::EntitiesLayer)},
A{at:AT::CORRECTION,name:"CORRECTION",s:"correction",element:ET::Correction,element_str:"correction",layer:None},
A{at:AT::ERRORDETECTION,name:"ERRORDETECTION",s:"errordetection",element:ET::ErrorDetection,element_str:"errordetection",layer:None},
A{at:AT::PHON,name:"PHON",s:"phon",element:ET::PhonContent,element_str:"ph",layer:None},
A{at:AT::SUBJECTIVITY,name:"SUBJECTIVITY",s:"subjectivity",element:ET::SubjectivityAnnotation,element_str:"subjectivity",layer:None},
A{at:AT::MORPHOLOGICAL,name:"MORPHOLOGICAL",s:"morphological",element:ET::Morpheme,element_str:"morpheme",layer:Some(ET::MorphologyLayer)},
A{at:AT::EVENT,name:"EVENT",s:"event",element:ET::Event,element_str:"event",layer:None},
A{at:AT::DEPENDENCY,name:"DEPENDENCY",s:"dependency",element:ET::Dependency,element_str:"dependency",layer:Some(ET::DependenciesLayer)},
A{at:AT::TIMESEGMENT,name:"TIMESEGMENT",s:"timesegment",element:ET::TimeSegment,element_str:"timesegment",layer:Some(ET::TimingLayer)},
A{at:AT::GAP,name:"GAP",s:"gap",element:ET::Gap,element_str:"gap",layer:None},
A{at:AT::QUOTE,name:"QUOTE",s:"quote",element:ET::Quote,element_str:"quote",layer:None},
A{at:AT::NOTE,name:"NOTE",s:"note",element:ET::Note,element_str:"note",layer:None},
A{at:AT::REFERENCE,name:"REFERENCE",s:"reference",element:ET::Reference,element_str:"ref",layer:None},
A{at:AT::RELATION,name:"RELATION",s:"relation",element:ET::Relation,element_str:"relation",layer:None},
A{at:AT::SPANRELATION,name:"SPANRELATION",s:"spanrelation",element:ET::SpanRelation,element_str:"spanrelation",layer:Some(ET::SpanRelationLayer)},
A{at:AT::COREFERENCE,name:"COREFERENCE",s:"coreference",element:ET::CoreferenceChain,element_str:"coreferencechain",layer:Some(ET::CoreferenceLayer)},
A{at:AT::SEMROLE,name:"SEMROLE",s:"semrole",element:ET::SemanticRole,element_str:"semrole",layer:Some(ET::SemanticRolesLayer)},
A{at:AT::METRIC,name:"METRIC",s:"metric",element:ET::Metric,element_str:"metric",layer:None},
A{at:AT::LANG,name:"LANG",s:"lang",element:ET::LangAnnotation,element_str:"lang",layer:None},
A{at:AT::STRING,name:"STRING",s:"string",element:ET::String,element_str:"str",layer:None},
A{at:AT::TABLE,name:"TABLE",s:"table",element:ET::Table,element_str:"table",layer:None},
A{at:AT::STYLE,name:"STYLE",s:"style",element:ET::TextMarkupStyle,element_str:"t-style",layer:None},
A{at:AT::PART,name:"PART",s:"part",element:ET::Part,element_str:"part",layer:None},
A{at:AT::UTTERANCE,name:"UTTERANCE",s:"utterance",element:ET::Utterance,element_str:"utt",layer:None},
A{at:AT::ENTRY,name:"ENTRY",s:"entry",element:ET::Entry,element_str:"entry",layer:None},
A{at:AT::TERM,name:"TERM",s:"term",element:ET::Term,element_str:"term",layer:None},
A{at:AT::DEFINITION,name:"DEFINITION",s:"definition",element:ET::Definition,element_str:"def",layer:None},
A{at:AT::EXAMPLE,name:"EXAMPLE",s:"example",element:ET::Example,element_str:"ex",layer:None},
A{at:AT::PHONOLOGICAL,name:"PHONOLOGICAL",s:"phonological",element:ET::Phoneme,element_str:"phoneme",layer:Some(ET::PhonologyLayer)},
A{at:AT::PREDICATE,name:"PREDICATE",s:"predicate",element:ET::Predicate,element_str:"predicate",layer:Some(ET::SemanticRolesLayer)},
A{at:AT::OBSERVATION,name:"OBSERVATION",s:"observation",element:ET::Observation,element_str:"observation",layer:Some(ET::ObservationLayer)},
A{at:AT::SENTIMENT,name:"SENTIMENT",s:"sentiment",element:ET::Sentiment,element_str:"sentiment",layer:Some(ET::SentimentLayer)},
A{at:AT::STATEMENT,name:"STATEMENT",s:"statement",element:ET::Statement,element_str:"statement",layer:Some(ET::StatementLayer)},
A{at:AT::ALTERNATIVE,name:"ALTERNATIVE",s:"alternative",element:ET::Alternative,element_str:"alt",layer:None},
A{at:AT::RAWCONTENT,name:"RAWCONTENT",s:"rawcontent",element:ET::Content,element_str:"content",layer:None},
A{at:AT::COMMENT,name:"COMMENT",s:"comment",element:ET::Comment,element_str:"comment",layer:None},
A{at:AT::DESCRIPTION,name:"DESCRIPTION",s:"description",element:ET::Description,element_str:"desc",layer:None},
A{at:AT::HYPHENATION,name:"HYPHENATION",s:"hyphenation",element:ET::Hyphbreak,element_str:"t-hbr",layer:None},
A{at:AT::HIDDENTOKEN,name:"HIDDENTOKEN",s:"hiddentoken",element:ET::Hiddenword,element_str:"hiddenw",layer:None},
A{at:AT::MODALITY,name:"MODALITY",s:"modality",element:ET::Modality,element_str:"modality",layer:Some(ET::ModalitiesLayer)},
A{at:AT::EXTERNAL,name:"EXTERNAL",s:"external",element:ET::External,element_str:"external",layer:None},
A{at:AT::HSPACE,name:"HSPACE",s:"hspace",element:ET::TextMarkupHSpace,element_str:"t-hspace",layer:None},
];
