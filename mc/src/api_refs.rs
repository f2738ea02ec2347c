// generated by tools/gen_api.py: every item-reference accessor
#![allow(clippy::all)]
use crate::refs::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::*;
pub fn all() -> Vec<Ref> {
    vec![
        Ref { name: "EntityCommon.owner", place: "entity:Line", many: false, target: "any",
            set: |h, t| if let H::E(e) = h { e.common.set_owner(t); true } else { false },
            get: |h, d| if let R::E(e) = h { e.common.owner(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "EntityCommon.material", place: "entity:Line", many: false, target: "Object",
            set: |h, t| if let H::E(e) = h { if let DrawingItemMut::Object(i) = t { e.common.set_material(&**i).is_ok() } else { false } } else { false },
            get: |h, d| if let R::E(e) = h { e.common.material(d).into_iter().map(|i| ident(DrawingItem::Object(i))).collect() } else { vec![] } },
        Ref { name: "EntityCommon.plot_style", place: "entity:Line", many: false, target: "any",
            set: |h, t| if let H::E(e) = h { e.common.set_plot_style(t); true } else { false },
            get: |h, d| if let R::E(e) = h { e.common.plot_style(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "Solid3D.history_object", place: "entity:Solid3D", many: false, target: "any",
            set: |h, t| if let H::E(Entity { specific: EntityType::Solid3D(x), .. }) = h { x.set_history_object(t); true } else { false },
            get: |h, d| if let R::E(Entity { specific: EntityType::Solid3D(x), .. }) = h { x.history_object(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "AttributeDefinition.secondary_attributes", place: "entity:AttributeDefinition", many: true, target: "any",
            set: |h, t| if let H::E(Entity { specific: EntityType::AttributeDefinition(x), .. }) = h { x.add_secondary_attributes(t); true } else { false },
            get: |h, d| if let R::E(Entity { specific: EntityType::AttributeDefinition(x), .. }) = h { x.secondary_attributes(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "Attribute.secondary_attributes", place: "entity:Attribute", many: true, target: "any",
            set: |h, t| if let H::E(Entity { specific: EntityType::Attribute(x), .. }) = h { x.add_secondary_attributes(t); true } else { false },
            get: |h, d| if let R::E(Entity { specific: EntityType::Attribute(x), .. }) = h { x.secondary_attributes(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "MLine.style", place: "entity:MLine", many: false, target: "Style",
            set: |h, t| if let H::E(Entity { specific: EntityType::MLine(x), .. }) = h { if let DrawingItemMut::Style(i) = t { x.set_style(&**i); true } else { false } } else { false },
            get: |h, d| if let R::E(Entity { specific: EntityType::MLine(x), .. }) = h { x.style(d).into_iter().map(|i| ident(DrawingItem::Style(i))).collect() } else { vec![] } },
        Ref { name: "Section.geometry_settings", place: "entity:Section", many: false, target: "any",
            set: |h, t| if let H::E(Entity { specific: EntityType::Section(x), .. }) = h { x.set_geometry_settings(t); true } else { false },
            get: |h, d| if let R::E(Entity { specific: EntityType::Section(x), .. }) = h { x.geometry_settings(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "DgnUnderlay.object", place: "entity:DgnUnderlay", many: false, target: "Object",
            set: |h, t| if let H::E(Entity { specific: EntityType::DgnUnderlay(x), .. }) = h { if let DrawingItemMut::Object(i) = t { x.set_object(&**i); true } else { false } } else { false },
            get: |h, d| if let R::E(Entity { specific: EntityType::DgnUnderlay(x), .. }) = h { x.object(d).into_iter().map(|i| ident(DrawingItem::Object(i))).collect() } else { vec![] } },
        Ref { name: "DwfUnderlay.object", place: "entity:DwfUnderlay", many: false, target: "Object",
            set: |h, t| if let H::E(Entity { specific: EntityType::DwfUnderlay(x), .. }) = h { if let DrawingItemMut::Object(i) = t { x.set_object(&**i); true } else { false } } else { false },
            get: |h, d| if let R::E(Entity { specific: EntityType::DwfUnderlay(x), .. }) = h { x.object(d).into_iter().map(|i| ident(DrawingItem::Object(i))).collect() } else { vec![] } },
        Ref { name: "PdfUnderlay.object", place: "entity:PdfUnderlay", many: false, target: "Object",
            set: |h, t| if let H::E(Entity { specific: EntityType::PdfUnderlay(x), .. }) = h { if let DrawingItemMut::Object(i) = t { x.set_object(&**i); true } else { false } } else { false },
            get: |h, d| if let R::E(Entity { specific: EntityType::PdfUnderlay(x), .. }) = h { x.object(d).into_iter().map(|i| ident(DrawingItem::Object(i))).collect() } else { vec![] } },
        Ref { name: "ObjectCommon.owner", place: "object:PlaceHolder", many: false, target: "any",
            set: |h, t| if let H::O(o) = h { o.common.set_owner(t); true } else { false },
            get: |h, d| if let R::O(o) = h { o.common.owner(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "DimensionAssoc.dimension", place: "object:DimensionAssoc", many: false, target: "Entity",
            set: |h, t| if let H::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { if let DrawingItemMut::Entity(i) = t { x.set_dimension(&**i); true } else { false } } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.dimension(d).into_iter().map(|i| ident(DrawingItem::Entity(i))).collect() } else { vec![] } },
        Ref { name: "DimensionAssoc.main_object", place: "object:DimensionAssoc", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.set_main_object(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.main_object(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "DimensionAssoc.main_object_xref", place: "object:DimensionAssoc", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.set_main_object_xref(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.main_object_xref(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "DimensionAssoc.intersection_object", place: "object:DimensionAssoc", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.set_intersection_object(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.intersection_object(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "DimensionAssoc.insertion_object_xref", place: "object:DimensionAssoc", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.set_insertion_object_xref(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.insertion_object_xref(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "Field.child_fields", place: "object:Field", many: true, target: "Object",
            set: |h, t| if let H::O(Object { specific: ObjectType::Field(x), .. }) = h { if let DrawingItemMut::Object(i) = t { x.add_child_fields(&**i).is_ok() } else { false } } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::Field(x), .. }) = h { x.child_fields(d).into_iter().map(|i| ident(DrawingItem::Object(i))).collect() } else { vec![] } },
        Ref { name: "Field.objects", place: "object:Field", many: true, target: "Object",
            set: |h, t| if let H::O(Object { specific: ObjectType::Field(x), .. }) = h { if let DrawingItemMut::Object(i) = t { x.add_objects(&**i); true } else { false } } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::Field(x), .. }) = h { x.objects(d).into_iter().map(|i| ident(DrawingItem::Object(i))).collect() } else { vec![] } },
        Ref { name: "Group.entities", place: "object:Group", many: true, target: "Entity",
            set: |h, t| if let H::O(Object { specific: ObjectType::Group(x), .. }) = h { if let DrawingItemMut::Entity(i) = t { x.add_entities(&**i); true } else { false } } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::Group(x), .. }) = h { x.entities(d).into_iter().map(|i| ident(DrawingItem::Entity(i))).collect() } else { vec![] } },
        Ref { name: "IdBuffer.entities", place: "object:IdBuffer", many: true, target: "Entity",
            set: |h, t| if let H::O(Object { specific: ObjectType::IdBuffer(x), .. }) = h { if let DrawingItemMut::Entity(i) = t { x.add_entities(&**i); true } else { false } } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::IdBuffer(x), .. }) = h { x.entities(d).into_iter().map(|i| ident(DrawingItem::Entity(i))).collect() } else { vec![] } },
        Ref { name: "LayerIndex.id_buffers", place: "object:LayerIndex", many: true, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::LayerIndex(x), .. }) = h { x.add_id_buffers(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::LayerIndex(x), .. }) = h { x.id_buffers(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "Layout.viewport", place: "object:Layout", many: false, target: "ViewPort",
            set: |h, t| if let H::O(Object { specific: ObjectType::Layout(x), .. }) = h { if let DrawingItemMut::ViewPort(i) = t { x.set_viewport(&**i); true } else { false } } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::Layout(x), .. }) = h { x.viewport(d).into_iter().map(|i| ident(DrawingItem::ViewPort(i))).collect() } else { vec![] } },
        Ref { name: "Layout.table_record", place: "object:Layout", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::Layout(x), .. }) = h { x.set_table_record(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::Layout(x), .. }) = h { x.table_record(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "Layout.table_record_base", place: "object:Layout", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::Layout(x), .. }) = h { x.set_table_record_base(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::Layout(x), .. }) = h { x.table_record_base(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "LightList.lights", place: "object:LightList", many: true, target: "Entity",
            set: |h, t| if let H::O(Object { specific: ObjectType::LightList(x), .. }) = h { if let DrawingItemMut::Entity(i) = t { x.add_lights(&**i).is_ok() } else { false } } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::LightList(x), .. }) = h { x.lights(d).into_iter().map(|i| ident(DrawingItem::Entity(i))).collect() } else { vec![] } },
        Ref { name: "MLeaderStyle.line_leader_type", place: "object:MLeaderStyle", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { x.set_line_leader_type(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { x.line_leader_type(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "MLeaderStyle.arrowhead", place: "object:MLeaderStyle", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { x.set_arrowhead(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { x.arrowhead(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "MLeaderStyle.m_text_style", place: "object:MLeaderStyle", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { x.set_m_text_style(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { x.m_text_style(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "MLeaderStyle.block_content", place: "object:MLeaderStyle", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { x.set_block_content(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { x.block_content(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "PlotSettings.shade_plot_object", place: "object:PlotSettings", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::PlotSettings(x), .. }) = h { x.set_shade_plot_object(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::PlotSettings(x), .. }) = h { x.shade_plot_object(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "RapidRTRenderEnvironment.custom_background", place: "object:RapidRTRenderEnvironment", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::RapidRTRenderEnvironment(x), .. }) = h { x.set_custom_background(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::RapidRTRenderEnvironment(x), .. }) = h { x.custom_background(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "SectionManager.section_entities", place: "object:SectionManager", many: true, target: "Entity",
            set: |h, t| if let H::O(Object { specific: ObjectType::SectionManager(x), .. }) = h { if let DrawingItemMut::Entity(i) = t { x.add_section_entities(&**i); true } else { false } } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::SectionManager(x), .. }) = h { x.section_entities(d).into_iter().map(|i| ident(DrawingItem::Entity(i))).collect() } else { vec![] } },
        Ref { name: "SectionSettings.source_objects", place: "object:SectionSettings", many: true, target: "Object",
            set: |h, t| if let H::O(Object { specific: ObjectType::SectionSettings(x), .. }) = h { if let DrawingItemMut::Object(i) = t { x.add_source_objects(&**i); true } else { false } } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::SectionSettings(x), .. }) = h { x.source_objects(d).into_iter().map(|i| ident(DrawingItem::Object(i))).collect() } else { vec![] } },
        Ref { name: "SectionSettings.destination_object", place: "object:SectionSettings", many: false, target: "Object",
            set: |h, t| if let H::O(Object { specific: ObjectType::SectionSettings(x), .. }) = h { if let DrawingItemMut::Object(i) = t { x.set_destination_object(&**i); true } else { false } } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::SectionSettings(x), .. }) = h { x.destination_object(d).into_iter().map(|i| ident(DrawingItem::Object(i))).collect() } else { vec![] } },
        Ref { name: "SortentsTable.entities", place: "object:SortentsTable", many: true, target: "Entity",
            set: |h, t| if let H::O(Object { specific: ObjectType::SortentsTable(x), .. }) = h { if let DrawingItemMut::Entity(i) = t { x.add_entities(&**i); true } else { false } } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::SortentsTable(x), .. }) = h { x.entities(d).into_iter().map(|i| ident(DrawingItem::Entity(i))).collect() } else { vec![] } },
        Ref { name: "SortentsTable.sort_items", place: "object:SortentsTable", many: true, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::SortentsTable(x), .. }) = h { x.add_sort_items(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::SortentsTable(x), .. }) = h { x.sort_items(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "SunStudy.page_setup_wizard", place: "object:SunStudy", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { x.set_page_setup_wizard(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { x.page_setup_wizard(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "SunStudy.view", place: "object:SunStudy", many: false, target: "View",
            set: |h, t| if let H::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { if let DrawingItemMut::View(i) = t { x.set_view(&**i); true } else { false } } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { x.view(d).into_iter().map(|i| ident(DrawingItem::View(i))).collect() } else { vec![] } },
        Ref { name: "SunStudy.visual_style", place: "object:SunStudy", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { x.set_visual_style(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { x.visual_style(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
        Ref { name: "SunStudy.text_style", place: "object:SunStudy", many: false, target: "any",
            set: |h, t| if let H::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { x.set_text_style(t); true } else { false },
            get: |h, d| if let R::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { x.text_style(d).into_iter().map(|i| ident(i)).collect() } else { vec![] } },
    ]
}
