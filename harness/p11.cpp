// Images and views of a graph: identities, descriptions, queries, what is declared about them
#include "graphs.hpp"
using namespace h;
namespace
{
	struct Im { crg::ImageId id; crg::ImageData d; };
	struct Vw { crg::ImageViewId id; crg::ImageViewData d; };
	bool sameRange( VkImageSubresourceRange const & a, VkImageSubresourceRange const & b )
	{
		return a.aspectMask == b.aspectMask && a.baseMipLevel == b.baseMipLevel && a.levelCount == b.levelCount && a.baseArrayLayer == b.baseArrayLayer && a.layerCount == b.layerCount;
	}
	bool sameView( crg::ImageViewData const & a, crg::ImageViewData const & b )
	{
		auto & i = a.info; auto & j = b.info;
		return a.image.id == b.image.id && i.flags == j.flags && i.viewType == j.viewType && i.format == j.format && sameRange( i.subresourceRange, j.subresourceRange )
			&& i.components.r == j.components.r && i.components.g == j.components.g && i.components.b == j.components.b && i.components.a == j.components.a;
	}
	void described( Ctx & cx, crg::ImageId i, crg::ImageData const & d )
	{
		auto & o = i.data->info; auto & n = d.info;
		cx.require( i.data->name == d.name && o.flags == n.flags && o.imageType == n.imageType && o.format == n.format && o.extent.width == n.extent.width && o.extent.height == n.extent.height && o.extent.depth == n.extent.depth
			&& o.mipLevels == n.mipLevels && o.arrayLayers == n.arrayLayers && o.samples == n.samples && o.tiling == n.tiling && o.usage == n.usage, "an image has the description it was declared with" );
		auto e = crg::getExtent( i );
		cx.require( e.width == n.extent.width && e.height == n.extent.height && e.depth == n.extent.depth, "the extent of an image is the declared one" );
		cx.eq( crg::getFormat( i ), n.format, "the format of an image" ); cx.eq( crg::getImageType( i ), n.imageType, "the type of an image" );
		cx.eq( crg::getMipLevels( i ), n.mipLevels, "the levels of an image" ); cx.eq( crg::getArrayLayers( i ), n.arrayLayers, "the layers of an image" );
	}
	void described( Ctx & cx, crg::ImageViewId v, crg::ImageViewData const & d, crg::ImageData const & im )
	{
		cx.require( sameView( *v.data, d ), "a view has the description it was declared with" );
		auto & r = d.info.subresourceRange;
		auto e = crg::getExtent( v );
		cx.require( e.width == im.info.extent.width && e.height == im.info.extent.height && e.depth == im.info.extent.depth, "the extent of a view is the one of its image" );
		auto half = [&]( uint32_t x ){ for ( uint32_t k = 0; k < r.baseMipLevel; ++k ) x = std::max( 1u, x / 2u ); return x; };
		auto m = crg::getMipExtent( v );
		cx.eq( m.width, half( im.info.extent.width ), "the width of the first level of a view" );
		cx.eq( m.height, half( im.info.extent.height ), "the height of the first level of a view" );
		cx.eq( m.depth, half( im.info.extent.depth ), "the depth of the first level of a view" );
		cx.eq( crg::getFormat( v ), d.info.format, "the format of a view" ); cx.eq( crg::getImageType( v ), im.info.imageType, "the image type of a view" );
		cx.eq( crg::getMipLevels( v ), r.levelCount, "the levels of a view" ); cx.eq( crg::getArrayLayers( v ), r.layerCount, "the layers of a view" );
	}
	crg::LayoutState some( Rng & rng )
	{
		return crg::makeLayoutState( rng.pick( { VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL } ) );
	}
}
CASE( declared, 1500 )
{
	crg::ResourceHandler handler;
	crg::FrameGraph g{ handler, "g" }, other{ handler, "other" };
	std::vector< Im > ims; std::vector< Vw > vws;
	for ( uint32_t k = 0, n = rng.range( 1, 5 ); k < n; ++k )
	{
		bool vol = rng.chance( 1, 4 );
		crg::ImageData d{ rng.flip() ? "i" : "j", rng.flip() ? VkImageCreateFlags( VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) : 0u, vol ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, rng.flip() ? VK_FORMAT_R8G8B8A8_UNORM : VK_FORMAT_R16_SFLOAT
			, { uint32_t( rng.range( 1, 40 ) ), uint32_t( rng.range( 1, 40 ) ), vol ? uint32_t( rng.range( 1, 9 ) ) : 1u }, VkImageUsageFlags( rng.range( 1, 255 ) ), uint32_t( rng.range( 1, 6 ) ), vol ? 1u : uint32_t( rng.range( 1, 12 ) ) };
		auto id = ( rng.flip() ? g : other ).createImage( d );
		for ( auto & i : ims ) cx.require( i.id.id != id.id && i.id.data != id.data, "each image has its own identity" );
		ims.push_back( { id, d } );
	}
	for ( uint32_t k = 0, n = rng.range( 1, 14 ); k < n; ++k )
	{
		auto & i = ims[rng.below( uint32_t( ims.size() ) )];
		bool vol = i.d.info.imageType == VK_IMAGE_TYPE_3D;
		uint32_t lv = rng.below( i.d.info.mipLevels ), nl = rng.range( 1, i.d.info.mipLevels - lv ), ly = rng.below( i.d.info.arrayLayers ), ny = rng.range( 1, i.d.info.arrayLayers - ly );
		crg::ImageViewData d{ rng.flip() ? "v" : "w", i.id, 0, vol ? VK_IMAGE_VIEW_TYPE_3D : ny > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D, i.d.info.format, { VK_IMAGE_ASPECT_COLOR_BIT, lv, nl, ly, ny } };
		if ( rng.flip() && !vws.empty() ) { d = rng.pick( vws ).d; d.name = rng.flip() ? "x" : d.name; auto im = d.image; for ( auto & z : ims ) if ( z.id.id == im.id && rng.chance( 1, 4 ) ) d.image = rng.pick( ims ).id; }
		if ( rng.chance( 1, 4 ) ) d.info.components.r = VkComponentSwizzle( rng.below( 7 ) );
		if ( rng.chance( 1, 4 ) ) d.info.components.a = VkComponentSwizzle( rng.below( 7 ) );
		auto id = ( rng.flip() ? g : other ).createView( d );
		Vw * like{};
		for ( auto & v : vws ) if ( sameView( v.d, d ) ) like = &v;
		if ( like ) cx.eq( id.id, like->id.id, "a view declared again has the identity it had" );
		else { for ( auto & v : vws ) cx.require( v.id.id != id.id && v.id.data != id.data, "another view has another identity" ); vws.push_back( { id, d } ); }
	}
	cx.note( "images", ims.size() ); cx.note( "views", vws.size() ); cx.note( "levels", ims[0].d.info.mipLevels ); cx.note( "layers", ims[0].d.info.arrayLayers ); cx.note( "w", ims[0].d.info.extent.width ); cx.note( "h", ims[0].d.info.extent.height ); cx.note( "d", ims[0].d.info.extent.depth );
	for ( auto & i : ims ) described( cx, i.id, i.d );
	for ( auto & v : vws ) for ( auto & i : ims ) if ( i.id.id == v.d.image.id ) described( cx, v.id, v.d, i.d );
	// what the graph is given and leaves, by subresource
	using Key = std::tuple< uint32_t, uint32_t, uint32_t >;
	std::map< Key, crg::LayoutState > in, out;
	for ( uint32_t k = 0, n = rng.below( 8 ); k < n; ++k )
	{
		auto & v = rng.pick( vws );
		if ( v.d.info.viewType == VK_IMAGE_VIEW_TYPE_3D ) continue;
		bool isIn = rng.flip();
		auto s = some( rng );
		auto & r = v.d.info.subresourceRange;
		if ( isIn ) { if ( rng.flip() ) g.addInput( v.id, s ); else g.addInput( v.d.image, v.d.info.viewType, r, s ); }
		else { if ( rng.flip() ) g.addOutput( v.id, s ); else g.addOutput( v.d.image, v.d.info.viewType, r, s ); }
		for ( uint32_t y = r.baseArrayLayer; y < r.baseArrayLayer + r.layerCount; ++y ) for ( uint32_t l = r.baseMipLevel; l < r.baseMipLevel + r.levelCount; ++l ) ( isIn ? in : out )[{ v.d.image.id, y, l }] = s;
	}
	for ( auto & i : ims )
	{
		if ( i.d.info.imageType == VK_IMAGE_TYPE_3D ) continue;
		for ( uint32_t y = 0; y < i.d.info.arrayLayers; ++y ) for ( uint32_t l = 0; l < i.d.info.mipLevels; ++l )
			for ( bool isIn : { true, false } )
			{
				auto & m = isIn ? in : out;
				auto it = m.find( { i.id.id, y, l } );
				VkImageSubresourceRange r{ VK_IMAGE_ASPECT_COLOR_BIT, l, 1, y, 1 };
				auto s = isIn ? g.getInputLayoutState( i.id, VK_IMAGE_VIEW_TYPE_2D, r ) : g.getOutputLayoutState( i.id, VK_IMAGE_VIEW_TYPE_2D, r );
				cx.eq( s.layout, it == m.end() ? VK_IMAGE_LAYOUT_UNDEFINED : it->second.layout, isIn ? "the layout given for a subresource is the one declared" : "the layout to leave a subresource in is the one declared" );
				if ( it != m.end() ) cx.require( s.state.access == it->second.state.access && s.state.pipelineStage == it->second.state.pipelineStage, "with its accesses and stages" );
			}
	}
}
CASE( merged, 1500 )
{
	crg::ResourceHandler handler;
	crg::FrameGraph g{ handler, "g" };
	auto & p = g.createPass( "p", noRun() );
	uint32_t levels = rng.range( 1, 6 ), lays = rng.range( 1, 24 );
	auto im = img2D( g, "i", VK_FORMAT_R8G8B8A8_UNORM, levels, lays, { 64, 64, 1 }, rng.flip() ? VkImageCreateFlags( VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) : 0u );
	crg::ImageViewIdArray views;
	bool mips = rng.chance( 3, 4 ), arrs = rng.chance( 3, 4 );
	uint32_t l0 = ~0u, l1 = 0, y0 = ~0u, y1 = 0;
	for ( uint32_t k = 0, n = rng.range( 1, 8 ); k < n; ++k )
	{
		uint32_t l = rng.below( levels ), nl = rng.range( 1, levels - l ), y = rng.chance( 1, 3 ) ? 0u : rng.below( lays );
		views.push_back( view2D( g, "v", im, l, nl, y, 1 ) );
		l0 = std::min( l0, l ); l1 = std::max( l1, l + nl ); y0 = std::min( y0, y ); y1 = std::max( y1, y + 1 );
	}
	cx.note( "parts", views.size() ); cx.note( "levels", levels ); cx.note( "layers", lays ); cx.note( "mips", mips ); cx.note( "arrays", arrs );
	auto v = p.mergeViews( views, mips, arrs );
	auto & d = *v.data; auto & r = d.info.subresourceRange;
	cx.eq( d.image.id, im.id, "a merged view is of the image of its parts" );
	cx.eq( d.info.format, VK_FORMAT_R8G8B8A8_UNORM, "a merged view has the format of its parts" );
	cx.eq( r.baseMipLevel, l0, "a merged view starts at the first level of its parts" );
	cx.eq( r.baseArrayLayer, y0, "a merged view starts at the first layer of its parts" );
	if ( mips ) cx.eq( r.baseMipLevel + r.levelCount, l1, "a merged view ends with the levels of its parts" );
	if ( arrs ) cx.eq( r.baseArrayLayer + r.layerCount, y1, "a merged view ends with the layers of its parts" );
	bool cube = ( im.data->info.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && r.layerCount % 6 == 0 && r.baseArrayLayer == 0;
	cx.eq( d.info.viewType, r.layerCount == 1 ? VK_IMAGE_VIEW_TYPE_2D : !cube ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : r.layerCount > 6 ? VK_IMAGE_VIEW_TYPE_CUBE_ARRAY : VK_IMAGE_VIEW_TYPE_CUBE, "the kind of a merged view tells whether it has several layers" );
}
