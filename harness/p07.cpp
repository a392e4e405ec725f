// Declared uses of resources
#include "graphs.hpp"
using namespace h;
namespace
{
	using A = crg::Attachment;
	struct Use
	{
		std::string kind;
		bool image, in, out, clearable; uint32_t binding;
		VkImageLayout sepLayout, jointLayout; VkAccessFlags access; VkPipelineStageFlags gfx, comp; VkDescriptorType desc;
		crg::ImageViewIdArray views; VkBuffer buffer{}; VkDeviceSize offset{}, size{};
		VkAttachmentLoadOp load = VK_ATTACHMENT_LOAD_OP_DONT_CARE, sload = VK_ATTACHMENT_LOAD_OP_DONT_CARE; VkAttachmentStoreOp store = VK_ATTACHMENT_STORE_OP_DONT_CARE, sstore = VK_ATTACHMENT_STORE_OP_DONT_CARE;
		VkBufferView texel{};
	};
	VkPipelineStageFlags const FS = VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, CS = VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, TR = VK_PIPELINE_STAGE_TRANSFER_BIT, CO = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT, LF = VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
}
CASE( declarations, 500 )
{
	crg::ResourceHandler handler;
	crg::FrameGraph g{ handler, "g" };
	auto & pass = g.createPass( "p", noRun() );
	std::vector< Use > images, buffers;
	auto n = rng.range( 1, 10 );
	uint32_t vn = 0;
	auto makeViews = [&]( VkFormat f, uint32_t count )
	{
		crg::ImageViewIdArray r;
		for ( uint32_t k = 0; k < count; ++k ) { auto nm = std::to_string( vn++ ); r.push_back( view2D( g, "v" + nm, img2D( g, "i" + nm, f ) ) ); }
		return r;
	};
	for ( uint32_t s = 0; s < n; ++s )
	{
		uint32_t k = rng.below( 35 );
		uint32_t b = rng.below( 20 );
		cx.in << "[kind" << k << " b" << b << "] ";
		if ( k < 15 )
		{
			auto bo = VkBuffer( uint64_t( 0x100 + s ) ); auto bv = VkBufferView( uint64_t( 0x900 + s ) );
			crg::Buffer buf{ bo, "b" + std::to_string( s ) };
			VkDeviceSize o = rng.any32(), z = rng.any32();
			crg::AccessState want{ VkAccessFlags( 1u << rng.below( 17 ) ), VkPipelineStageFlags( 1u << rng.below( 14 ) ) };
			Use u{ "", false, true, false, false, b };
			u.buffer = bo; u.offset = o; u.size = z;
			bool v = k >= 8 && k < 14; uint32_t q = v ? k - 8 : k;
			if ( v ) u.texel = bv;
			auto rd = VkAccessFlags( VK_ACCESS_SHADER_READ_BIT ), wr = VkAccessFlags( VK_ACCESS_SHADER_WRITE_BIT );
			auto ty = v ? VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
			u.gfx = FS; u.comp = CS; u.desc = ty;
			switch ( q )
			{
			case 0: v ? pass.addImplicitBufferView( buf, bv, o, z, want ) : pass.addImplicitBuffer( buf, o, z, want ); u.access = want.access; u.gfx = u.comp = want.pipelineStage; u.desc = VK_DESCRIPTOR_TYPE_STORAGE_BUFFER; u.binding = 0xFFFFFFFFu; break;
			case 1: v ? pass.addUniformBufferView( buf, bv, b, o, z ) : pass.addUniformBuffer( buf, b, o, z ); u.access = rd; u.desc = v ? VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER; break;
			case 2: v ? pass.addInputStorageBufferView( buf, bv, b, o, z ) : pass.addInputStorageBuffer( buf, b, o, z ); u.access = rd; break;
			case 3: v ? pass.addOutputStorageBufferView( buf, bv, b, o, z ) : pass.addOutputStorageBuffer( buf, b, o, z ); u.access = wr; u.in = false; u.out = true; break;
			case 4: v ? pass.addClearableOutputStorageBufferView( buf, bv, b, o, z ) : pass.addClearableOutputStorageBuffer( buf, b, o, z ); u.access = wr; u.in = false; u.out = true; u.clearable = true; break;
			case 5: v ? pass.addInOutStorageBufferView( buf, bv, b, o, z ) : pass.addInOutStorageBuffer( buf, b, o, z ); u.access = rd | wr; u.out = true; break;
			case 6: pass.addTransferInputBuffer( buf, o, z ); u.access = VK_ACCESS_TRANSFER_READ_BIT; u.gfx = u.comp = TR; u.binding = 0xFFFFFFFFu; break;
			case 7: pass.addTransferOutputBuffer( buf, o, z ); u.access = VK_ACCESS_TRANSFER_WRITE_BIT; u.gfx = u.comp = TR; u.in = false; u.out = true; u.binding = 0xFFFFFFFFu; break;
			}
			if ( k == 14 ) { pass.addTransferInOutBuffer( buf, o, z ); u.access = VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT; u.gfx = u.comp = TR; u.out = true; u.binding = 0xFFFFFFFFu; }
			buffers.push_back( u );
		}
		else
		{
			bool arr = rng.flip();
			auto cnt = arr ? rng.range( 1, 3 ) : 1u;
			auto dsf = rng.pick( { VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_D32_SFLOAT_S8_UINT } );
			auto want = rng.pick( layouts() );
			Use u{ "", true, true, false, false, 0xFFFFFFFFu };
			u.desc = VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
			auto lay = [&]( VkImageLayout a, VkImageLayout c ){ u.sepLayout = a; u.jointLayout = c; };
			auto fmt = VK_FORMAT_R8G8B8A8_UNORM;
			if ( k >= 29 || k == 17 || k == 18 ) fmt = dsf;
			if ( k >= 26 && k < 29 ) fmt = VK_FORMAT_D32_SFLOAT;
			auto vs = u.views = makeViews( fmt, cnt );
			auto v = vs[0];
			auto rd = VkAccessFlags( VK_ACCESS_SHADER_READ_BIT ), wr = VkAccessFlags( VK_ACCESS_SHADER_WRITE_BIT );
			bool front = false;
			auto L = VK_ATTACHMENT_LOAD_OP_LOAD, C = VK_ATTACHMENT_LOAD_OP_CLEAR; auto S = VK_ATTACHMENT_STORE_OP_STORE;
#define CRG_ADD( F, ... ) if ( arr ) pass.F( vs, ##__VA_ARGS__ ); else { if ( cnt == 1 ) pass.F( v, ##__VA_ARGS__ ); }
			switch ( k )
			{
			case 15: CRG_ADD( addSampledView, b ); u.binding = b; lay( VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ); u.access = rd; u.gfx = FS; u.comp = CS; break;
			case 16: CRG_ADD( addImplicitColourView, want ); lay( want, want ); u.access = accessOf( want ); u.gfx = u.comp = stageOf( want ); break;
			case 17: CRG_ADD( addImplicitDepthView, want ); lay( want, want ); u.access = accessOf( want ); u.gfx = u.comp = stageOf( want ); break;
			case 18: CRG_ADD( addImplicitDepthStencilView, want ); lay( want, want ); u.access = accessOf( want ); u.gfx = u.comp = stageOf( want ); break;
			case 19: CRG_ADD( addInputStorageView, b ); u.access = rd; break;
			case 20: CRG_ADD( addOutputStorageView, b ); u.in = false; u.out = true; u.access = wr; break;
			case 21: CRG_ADD( addClearableOutputStorageView, b ); u.in = false; u.out = true; u.clearable = true; u.access = wr; break;
			case 22: CRG_ADD( addInOutStorageView, b ); u.out = true; u.access = rd | wr; break;
			case 23: CRG_ADD( addTransferInputView ); lay( VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ); u.access = VK_ACCESS_TRANSFER_READ_BIT; u.gfx = u.comp = TR; break;
			case 24: CRG_ADD( addTransferOutputView ); u.in = false; u.out = true; lay( VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ); u.access = VK_ACCESS_TRANSFER_WRITE_BIT; u.gfx = u.comp = TR; break;
			case 25:
				u.binding = 0;
				switch ( rng.below( 3 ) )
				{
				case 0: CRG_ADD( addInputColourView ); u.load = L; u.access = VK_ACCESS_COLOR_ATTACHMENT_READ_BIT; break;
				case 1: CRG_ADD( addInOutColourView ); u.out = true; u.load = L; u.store = S; u.access = VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT; break;
				default: CRG_ADD( addOutputColourView ); u.in = false; u.out = true; u.load = C; u.store = S; u.access = VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT; break;
				}
				lay( VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL ); u.gfx = u.comp = CO;
				break;
			case 26: case 27: case 28: case 29: case 30: case 31: case 32: case 33: case 34:
			{
				front = true; u.binding = 0; u.gfx = u.comp = LF;
				bool dep = k < 29 || k >= 32, ste = k >= 29;
				uint32_t m = ( k - 26 ) % 3;
				u.in = m < 2; u.out = m > 0;
				if ( dep ) { u.load = m < 2 ? L : C; if ( m ) u.store = S; }
				if ( ste ) { u.sload = m < 2 ? L : C; if ( m ) u.sstore = S; }
				switch ( k )
				{
				case 26: CRG_ADD( addInputDepthView ); break; case 27: CRG_ADD( addInOutDepthView ); break; case 28: CRG_ADD( addOutputDepthView ); break;
				case 29: CRG_ADD( addInputStencilView ); break; case 30: CRG_ADD( addInOutStencilView ); break; case 31: CRG_ADD( addOutputStencilView ); break;
				case 32: CRG_ADD( addInputDepthStencilView ); break; case 33: CRG_ADD( addInOutDepthStencilView ); break; case 34: CRG_ADD( addOutputDepthStencilView ); break;
				}
				u.access = ( u.in ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT : 0 ) | ( u.out ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT : 0 );
				lay( u.out ? ( dep && ste ? VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL : dep ? VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL )
					: ( dep && ste ? VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL : dep ? VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL )
					, u.out ? VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL );
				break;
			}
			}
			if ( k >= 19 && k <= 22 ) { u.binding = b; lay( VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_GENERAL ); u.gfx = FS; u.comp = CS; u.desc = VK_DESCRIPTOR_TYPE_STORAGE_IMAGE; }
			if ( front ) images.insert( images.begin(), u ); else images.push_back( u );
		}
	}
	cx.eq( pass.images.size(), images.size(), "images declared" );
	cx.eq( pass.buffers.size(), buffers.size(), "buffers declared" );
	auto common = [&]( A const & a, Use const & u, std::string const & w )
	{
		cx.eq( a.pass, &pass, w + ": its pass" );
		cx.eq( a.isInput(), u.in, w + ": read" ); cx.eq( a.isOutput(), u.out, w + ": written" );
		cx.eq( a.isImage(), u.image, w + ": an image" ); cx.eq( a.isBuffer(), !u.image, w + ": a buffer" );
		cx.eq( a.isClearableImage() || a.isClearableBuffer(), u.clearable, w + ": clearable" );
		cx.eq( a.binding, u.binding, w + ": binding" );
		cx.eq( a.getAccessMask(), u.access, w + ": access mask" );
		cx.eq( a.getPipelineStageFlags( false ), u.gfx, w + ": stages in a graphics pass" );
		cx.eq( a.getPipelineStageFlags( true ), u.comp, w + ": stages in a compute pass" );
		cx.eq( a.getDescriptorType(), u.desc, w + ": descriptor type" );
	};
	for ( size_t k = 0; k < images.size(); ++k )
	{
		auto & a = pass.images[k]; auto & u = images[k];
		auto w = "image " + std::to_string( k );
		common( a, u, w );
		cx.eq( a.getImageLayout( true ), u.sepLayout, w + ": layout with separate depth and stencil" );
		cx.eq( a.getImageLayout( false ), u.jointLayout, w + ": layout with joint depth and stencil" );
		cx.eq( a.getViewCount(), uint32_t( u.views.size() ), w + ": number of views" );
		for ( uint32_t i = 0; i < u.views.size(); ++i ) cx.eq( a.view( i ).id, u.views[i].id, w + ": view " + std::to_string( i ) );
		cx.eq( a.imageAttach.loadOp, u.load, w + ": load" ); cx.eq( a.imageAttach.storeOp, u.store, w + ": store" );
		cx.eq( a.imageAttach.stencilLoadOp, u.sload, w + ": stencil load" ); cx.eq( a.imageAttach.stencilStoreOp, u.sstore, w + ": stencil store" );
	}
	for ( size_t k = 0; k < buffers.size(); ++k )
	{
		auto & a = pass.buffers[k]; auto & u = buffers[k];
		auto w = "buffer " + std::to_string( k );
		common( a, u, w );
		cx.eq( a.buffer(), u.buffer, w + ": buffer" );
		cx.eq( a.bufferAttach.range.offset, u.offset, w + ": offset" ); cx.eq( a.bufferAttach.range.size, u.size, w + ": size" );
		cx.eq( a.bufferAttach.view, u.texel, w + ": texel view" );
	}
}
