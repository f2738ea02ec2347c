//! The kinds of drawing items, their types' default instances, and how to put them in / get them from a drawing.
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::Value;

pub const VERSIONS: [AcadVersion; 21] = [
    AcadVersion::Version_1_0,
    AcadVersion::Version_1_2,
    AcadVersion::Version_1_40,
    AcadVersion::Version_2_05,
    AcadVersion::Version_2_10,
    AcadVersion::Version_2_21,
    AcadVersion::Version_2_22,
    AcadVersion::Version_2_5,
    AcadVersion::Version_2_6,
    AcadVersion::R9,
    AcadVersion::R10,
    AcadVersion::R11,
    AcadVersion::R12,
    AcadVersion::R13,
    AcadVersion::R14,
    AcadVersion::R2000,
    AcadVersion::R2004,
    AcadVersion::R2007,
    AcadVersion::R2010,
    AcadVersion::R2013,
    AcadVersion::R2018,
];

macro_rules! ents { ($($n:ident),*) => { vec![$((stringify!($n), EntityType::$n(Default::default()))),*] } }
macro_rules! objs { ($($n:ident),*) => { vec![$((stringify!($n), ObjectType::$n(Default::default()))),*] } }

pub fn entity_defaults() -> Vec<(&'static str, EntityType)> {
    ents![
        Face3D, Solid3D, ProxyEntity, Arc, ArcAlignedText, AttributeDefinition, Attribute, Body, Circle, RotatedDimension,
        RadialDimension, DiameterDimension, AngularThreePointDimension, OrdinateDimension, Ellipse, Helix, Image, Insert,
        Leader, Light, Line, LwPolyline, MLine, MText, OleFrame, Ole2Frame, ModelPoint, Polyline, Ray, Region, RText,
        Section, Seqend, Shape, Solid, Spline, Text, Tolerance, Trace, DgnUnderlay, DwfUnderlay, PdfUnderlay, Vertex,
        Wipeout, XLine
    ]
}
pub fn object_defaults() -> Vec<(&'static str, ObjectType)> {
    objs![
        AcadProxyObject, DictionaryWithDefault, PlaceHolder, NavisWorksModelDefinition, DataTable, Dictionary,
        DictionaryVariable, DimensionAssoc, Field, GeoData, Group, IdBuffer, ImageDefinition, ImageDefinitionReactor,
        LayerFilter, LayerIndex, Layout, LightList, Material, MLeaderStyle, MLineStyle, ObjectPointer, PlotSettings,
        RapidRTRenderEnvironment, RapidRenderSettings, RasterVariables, MentalRayRenderSettings, RenderEnvironment,
        RenderGlobal, SectionManager, SectionSettings, SortentsTable, SpatialFilter, SpatialIndex, SunStudy, TableStyle,
        UnderlayDefinition, VbaProject, VisualStyle, WipeoutVariables, XRecordObject
    ]
}

pub fn fixed_header() -> Header {
    let mut v = serde_json::to_value(Header::default()).unwrap();
    crate::gen::pin_clock_values(&mut v);
    serde_json::from_value(v).unwrap()
}

/// A drawing with nothing in it but a deterministic header.
pub fn empty_drawing(version: AcadVersion) -> Drawing {
    let mut d = Drawing::new();
    d.clear();
    d.header = fixed_header();
    d.header.version = version;
    d.header.next_available_handle = Handle(0x100);
    d
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Entity,
    Object,
    AppId,
    BlockRecord,
    DimStyle,
    LineType,
    Layer,
    Style,
    Ucs,
    View,
    ViewPort,
    Block,
    Class,
    Header,
}
pub const TABLE_KINDS: [Kind; 9] =
    [Kind::AppId, Kind::BlockRecord, Kind::DimStyle, Kind::LineType, Kind::Layer, Kind::Style, Kind::Ucs, Kind::View, Kind::ViewPort];

pub fn kind_name(k: Kind) -> String {
    format!("{:?}", k)
}

/// (type name, default JSON)
pub fn types_of(k: Kind) -> Vec<(String, Value)> {
    use serde_json::to_value as tv;
    let one = |v: Value| vec![(kind_name(k), v)];
    let mut out = match k {
        Kind::Entity => entity_defaults().into_iter().map(|(n, e)| (n.to_string(), tv(Entity::new(e)).unwrap())).collect(),
        Kind::Object => object_defaults().into_iter().map(|(n, e)| (n.to_string(), tv(Object::new(e)).unwrap())).collect(),
        Kind::AppId => one(tv(AppId { name: "N0".into(), ..Default::default() }).unwrap()),
        Kind::BlockRecord => one(tv(BlockRecord { name: "N0".into(), ..Default::default() }).unwrap()),
        Kind::DimStyle => one(tv(DimStyle { name: "N0".into(), ..Default::default() }).unwrap()),
        Kind::LineType => one(tv(LineType { name: "N0".into(), ..Default::default() }).unwrap()),
        Kind::Layer => one(tv(Layer { name: "N0".into(), ..Default::default() }).unwrap()),
        Kind::Style => one(tv(Style { name: "N0".into(), ..Default::default() }).unwrap()),
        Kind::Ucs => one(tv(Ucs { name: "N0".into(), ..Default::default() }).unwrap()),
        Kind::View => one(tv(View { name: "N0".into(), ..Default::default() }).unwrap()),
        Kind::ViewPort => one(tv(ViewPort { name: "N0".into(), ..Default::default() }).unwrap()),
        Kind::Block => one(tv(Block { name: "N0".into(), ..Default::default() }).unwrap()),
        Kind::Class => one(tv(Class { record_name: "N0".into(), ..Default::default() }).unwrap()),
        Kind::Header => one(tv(fixed_header()).unwrap()),
    };
    out.iter_mut().for_each(|(_, v)| crate::gen::pin_clock_values(v));
    out
}

/// Puts an item (as JSON) into the drawing through the public API; Err if the JSON is not a value of the type.
pub fn put(k: Kind, d: &mut Drawing, v: &Value) -> Result<(), String> {
    use serde_json::from_value as fv;
    let v = v.clone();
    macro_rules! go { ($m:ident) => {{ let x = fv(v).map_err(|e| e.to_string())?; d.$m(x); }} }
    match k {
        Kind::Entity => go!(add_entity),
        Kind::Object => go!(add_object),
        Kind::AppId => go!(add_app_id),
        Kind::BlockRecord => go!(add_block_record),
        Kind::DimStyle => go!(add_dim_style),
        Kind::LineType => go!(add_line_type),
        Kind::Layer => go!(add_layer),
        Kind::Style => go!(add_style),
        Kind::Ucs => go!(add_ucs),
        Kind::View => go!(add_view),
        Kind::ViewPort => go!(add_view_port),
        Kind::Block => go!(add_block),
        Kind::Class => d.classes.push(fv(v).map_err(|e| e.to_string())?),
        Kind::Header => {
            let ver = d.header.version;
            d.header = fv(v).map_err(|e| e.to_string())?;
            d.header.version = ver;
        }
    }
    Ok(())
}
/// All items of the kind, in drawing order, as JSON.
pub fn get(k: Kind, d: &Drawing) -> Vec<Value> {
    use serde_json::to_value as tv;
    macro_rules! go { ($m:ident) => { d.$m().map(|x| tv(x).unwrap()).collect() } }
    match k {
        Kind::Entity => go!(entities),
        Kind::Object => go!(objects),
        Kind::AppId => go!(app_ids),
        Kind::BlockRecord => go!(block_records),
        Kind::DimStyle => go!(dim_styles),
        Kind::LineType => go!(line_types),
        Kind::Layer => go!(layers),
        Kind::Style => go!(styles),
        Kind::Ucs => go!(ucss),
        Kind::View => go!(views),
        Kind::ViewPort => go!(view_ports),
        Kind::Block => go!(blocks),
        Kind::Class => d.classes.iter().map(|x| tv(x).unwrap()).collect(),
        Kind::Header => vec![tv(&d.header).unwrap()],
    }
}
pub fn shape_of(k: Kind) -> crate::shape::Shape {
    use crate::shape::trace;
    match k {
        Kind::Entity => trace::<Entity>(),
        Kind::Object => trace::<Object>(),
        Kind::AppId => trace::<AppId>(),
        Kind::BlockRecord => trace::<BlockRecord>(),
        Kind::DimStyle => trace::<DimStyle>(),
        Kind::LineType => trace::<LineType>(),
        Kind::Layer => trace::<Layer>(),
        Kind::Style => trace::<Style>(),
        Kind::Ucs => trace::<Ucs>(),
        Kind::View => trace::<View>(),
        Kind::ViewPort => trace::<ViewPort>(),
        Kind::Block => trace::<Block>(),
        Kind::Class => trace::<Class>(),
        Kind::Header => trace::<Header>(),
    }
}
